// C06  angle conversion, normalisation and measurement
// mc-flags: -O2
// mc-assume: turns are counted with the library's own full-turn constant (the nearest representable value of 2*pi)
#include "ref.hpp"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
using mc::Ctx;
using vm::vec;

// a angle, n normalised, o full turn: n in [0,o) and (n - a)/o integral up to rounding
template <class T> void check_norm(Ctx& c, T a, T n, T o, const char* what) {
  CHECK(n >= T(0) && n < o, what, "(", a, ") = ", n, " is not in [0, full turn)");
  // exact remainder of the exact rational a by the exact rational o
  T r = std::fmod(a, o);
  long double e = r;
  if (e < 0) e += o;
  const long double d = std::fabs((long double)n - e);
  // one rounding when the turn is added to a negative remainder; an implementation may also reduce with a
  // rounded quotient, which costs an error proportional to the angle
  const long double tol = std::numeric_limits<T>::epsilon() * (4.0L * o + 4.0L * std::fabs((long double)a));
  CHECK(d <= tol || std::fabs(d - o) <= tol, what, "(", a, ") = ", n, " expected ", e);
}
template <class T> void both(Ctx& c, T a) {
  check_norm(c, a, vm::normalize_radians(a), vm::constants<T>::two_pi(), "normalize_radians");
  check_norm(c, a, vm::normalize_degrees(a), T(360), "normalize_degrees");
  c.op(2);
}

// every exponent, structured mantissas, both signs: termination and range for the whole finite line
template <class T, class U> void exponents(Ctx& c) {
  const int EB = sizeof(T) == 4 ? 8 : 11, MB = sizeof(T) == 4 ? 23 : 52;
  static const std::vector<U> man = [] {
    const int MB = sizeof(T) == 4 ? 23 : 52;
    std::vector<U> m{0, 1, (U(1) << MB) - 1};
    for (int b = 0; b < MB; b += 3) m.push_back(U(1) << b), m.push_back(((U(1) << MB) - 1) ^ (U(1) << b));
    return m;
  }();
  const U sgn = c.choose(2), ex = c.choose((1u << EB) - 1);
  const U bits = (sgn << (EB + MB)) | (ex << MB) | c.pick(man);
  T v;
  std::memcpy(&v, &bits, sizeof v);
  NOTE("angle=", v);
  both(c, v);
  c.state(bits);
}
MC_INSTANCE("exponents_d", (exponents<double, uint64_t>))
MC_INSTANCE("exponents_f", (exponents<float, uint32_t>))

// multiples of fractions of a turn, and the neighbouring floating point values
template <class T> void turns(Ctx& c) {
  const bool deg = c.flag();
  const T o = deg ? T(360) : vm::constants<T>::two_pi();
  const int k = c.range(-c.tiered(200, 2000), c.tiered(200, 2000));
  static const std::vector<int> den{1, 2, 3, 4, 5, 8, 24, 360};
  const int d = c.pick(den);
  T a = T((long double)o * k / d);
  const int nudge = c.range(-2, 2);
  for (int i = 0; i < std::abs(nudge); ++i) a = std::nextafter(a, nudge > 0 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest());
  NOTE("angle=", a, deg ? " deg" : " rad");
  const T n = deg ? vm::normalize_degrees(a) : vm::normalize_radians(a);
  check_norm(c, a, n, o, deg ? "normalize_degrees" : "normalize_radians");
  if (a >= 0 && a < o) CHECK(n == a, "normalising changed an angle that is in range: ", a, " -> ", n);
  const T n2 = deg ? vm::normalize_degrees(n) : vm::normalize_radians(n);
  CHECK(n2 == n, "normalising is not idempotent: ", a, n, n2);
  if (deg && std::fabs(a) < T(16000) && std::floor(a * 64) == a * 64) { // exactly representable: exact answer
    long double e = std::fmod((long double)a, 360.0L);
    if (e < 0) e += 360;
    CHECK((long double)n == e, "normalize_degrees(", a, ") = ", n, " expected ", e);
  }
  c.op(2);
  c.state(a, deg);
}
MC_INSTANCE("turns_d", (turns<double>))
MC_INSTANCE("turns_f", (turns<float>))

// every integral and half-integral degree value up to a bound
template <class T> void degrees(Ctx& c) {
  const int block = c.range(0, 79);
  for (int i = 0; i < 2000; ++i) {
    const int k = block * 2000 + i - 80000; // half degrees: -40000 .. 40000 degrees
    const T a = T(k) / 2;
    const T n = vm::normalize_degrees(a);
    int e = k % 720;
    if (e < 0) e += 720;
    CHECK(n == T(e) / 2, "normalize_degrees(", a, ") = ", n, " expected ", e / 2.0);
  }
  NOTE("block ", block, " of 2000 half degrees");
  c.op(2000);
  c.state(block);
}
MC_INSTANCE("degrees_d", (degrees<double>))
MC_INSTANCE("degrees_f", (degrees<float>))

template <class T> void convert(Ctx& c) {
  const int k = c.range(-2000, 2000);
  static const std::vector<double> sc{1, 0.25, 1e-6, 1e6, 1e30, 1e-30, 1.0 / 3};
  const T d = T(k * c.pick(sc));
  const long double pi = 3.14159265358979323846264338327950288L;
  const T r = vm::to_radians(d), g = vm::to_degrees(d);
  NOTE("d=", d, " radians=", r);
  const long double rel = sizeof(T) == 4 ? 1e-6L : 1e-14L;
  CHECK(mc::close(r, d * pi / 180, rel, 0), "to_radians(", d, ") = ", r);
  CHECK(mc::close(g, d * 180 / pi, rel, 0), "to_degrees(", d, ") = ", g);
  CHECK(mc::close(vm::to_degrees(r), d, rel, 0) && mc::close(vm::to_radians(g), d, rel, 0), "degree/radian conversion does not round-trip ", d);
  c.op(4);
  c.state(d);
}
MC_INSTANCE("convert_d", (convert<double>))
MC_INSTANCE("convert_f", (convert<float>))

template <class T> void constants(Ctx& c) {
  const long double pi = 3.14159265358979323846264338327950288L;
  using K = vm::constants<T>;
  const long double rel = std::numeric_limits<T>::epsilon();
  CHECK(mc::close(K::pi(), pi, rel) && mc::close(K::two_pi(), 2 * pi, rel) && mc::close(K::half_pi(), pi / 2, rel) && mc::close(K::quarter_pi(), pi / 4, rel) && mc::close(K::three_half_pi(), 1.5L * pi, rel) && mc::close(K::e(), 2.71828182845904523536L, rel), "constants");
  c.op(6);
  c.state(1);
  NOTE("pi, 2pi, pi/2, pi/4, 3pi/2, e");
}
MC_INSTANCE("constants_d", (constants<double>))
MC_INSTANCE("constants_f", (constants<float>))

// measured angle: v is axis turned counter-clockwise about up by a known angle
template <class T> void measure(Ctx& c) {
  static const std::vector<std::array<int, 3>> ups{{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {1, 1, 1}, {1, -2, 3}, {-3, 1, 0}, {2, 2, -1}, {0, 3, 4}, {-1, -1, -1}};
  const auto& u = c.pick(ups);
  const ref::V3 n = ref::unit(ref::from(u)), e1 = ref::perp(n), e2 = ref::cross(n, e1);
  const int s = c.range(0, 7) * 45, k = c.range(0, c.tiered(71, 359));
  const int N = c.tiered(72, 360);
  const long double pi = 3.14159265358979323846264338327950288L;
  const long double th = 2 * pi * k / N, st = pi * s / 180;
  auto at = [&](long double t) {
    vec<T, 3> r;
    for (int i = 0; i < 3; ++i) r[i] = T(std::cos(t) * e1[i] + std::sin(t) * e2[i]);
    return r;
  };
  const vec<T, 3> axis = at(st), v = at(st + th), up{T(n.x), T(n.y), T(n.z)};
  const T a = vm::measure_angle(v, axis, up), b = vm::measure_angle(axis, v, up), f = vm::measure_angle(v, axis, -up);
  NOTE("up=", up, " axis=", axis, " v=", v, " angle=", a);
  const T o = vm::constants<T>::two_pi();
  const long double tol = sizeof(T) == 4 ? 2e-3L : 1e-7L;
  auto cyc = [&](long double x, long double y) { long double d = std::fabs(std::fmod(x - y, 2 * pi)); return std::fmin(d, 2 * pi - d); };
  for (T x : {a, b, f}) CHECK(x >= 0 && x <= o, "measured angle out of range: ", x);
  CHECK(cyc(a, th) <= tol, "measure_angle(", v, ",", axis, ",", up, ") = ", a, " expected ", th);
  CHECK(cyc(b, -th) <= tol, "measure_angle with swapped arguments = ", b, " expected ", 2 * pi - th);
  CHECK(cyc(f, -th) <= tol, "measure_angle with flipped up axis = ", f);
  if (k != 0 && 2 * k != N) CHECK(std::fabs((long double)a + b - o) <= 2 * tol, "swapped angles do not add up to a full turn: ", a, b);
  // scaling and opposite: v == axis is 0
  c.op(3);
  c.state(u, s, k);
}
MC_INSTANCE("measure_d", (measure<double>))
MC_INSTANCE("measure_f", (measure<float>))

// vectors whose dot product rounds beyond 1: measured angle must stay defined
template <class T> void measure_unit(Ctx& c) {
  const int x = c.range(-6, 6), y = c.range(-6, 6), z = c.range(-6, 6);
  if (x == 0 && y == 0 && z == 0) return c.skip();
  const auto v = vm::normalize(vec<T, 3>(T(x), T(y), T(z)));
  for (int i = 0; i < 3; ++i) {
    const auto up = vec<T, 3>::axis(i);
    const T a = vm::measure_angle(v, v, up), b = vm::measure_angle(v, -v, up);
    CHECK(a == a && b == b, "angle between (anti)parallel unit vectors is NaN: ", v);
    const T o = vm::constants<T>::two_pi();
    CHECK(std::fmin(a, o - a) < T(2e-3) && std::fabs(b - o / 2) < T(2e-3), "angle of ", v, " with itself/opposite: ", a, b);
  }
  NOTE("v=", v);
  c.op(6);
  c.state(v);
}
MC_INSTANCE("measure_unit_d", (measure_unit<double>))
MC_INSTANCE("measure_unit_f", (measure_unit<float>))

// angles close to zero, to half a turn and to a full turn
template <class T> void measure_near(Ctx& c) {
  static const std::vector<std::array<int, 3>> ups{{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {0, 1, 0}, {1, 1, 1}, {1, -2, 3}, {-3, 1, 0}};
  const auto& u = c.pick(ups);
  const ref::V3 n = ref::unit(ref::from(u)), e1 = ref::perp(n), e2 = ref::cross(n, e1);
  const long double pi = 3.14159265358979323846264338327950288L;
  const long double d = std::pow(2.0L, -c.range(0, sizeof(T) == 4 ? 9 : 22)) * (c.flag() ? 1 : -1), th = c.choose(4) * pi / 2 + d, st = c.choose(12) * pi / 6 + 0.2L;
  auto at = [&](long double t) {
    vec<T, 3> r;
    for (int i = 0; i < 3; ++i) r[i] = T(std::cos(t) * e1[i] + std::sin(t) * e2[i]);
    return r;
  };
  const vec<T, 3> axis = at(st), v = at(st + th), up{T(n.x), T(n.y), T(n.z)};
  const T a = vm::measure_angle(v, axis, up);
  long double want = std::fmod(th, 2 * pi);
  if (want < 0) want += 2 * pi;
  NOTE("up=", up, " axis=", axis, " v=", v, " angle=", a);
  CHECK(std::fabs((long double)a - want) <= (sizeof(T) == 4 ? 1e-3L : 1e-7L), "measure_angle(", v, ",", axis, ",", up, ") = ", a, " expected ", want);
  c.op();
  c.state(u, T(st), T(th));
}
MC_INSTANCE("measure_near_d", (measure_near<double>))
MC_INSTANCE("measure_near_f", (measure_near<float>))

// up axes and vectors with components in every order of size and with every sign
template <class T> void measure_skewed(Ctx& c) {
  const ref::Frame& f = c.pick(ref::frames());
  const long double pi = ref::PI;
  const int N = c.tiered(48, 120), k = c.range(1, N - 1), s = c.range(0, 11);
  const long double th = 2 * pi * k / N, st = s * pi / 6 + 0.1L;
  const auto at = [&](long double t) {
    const ref::V3 v = f({std::cos(t), f.det * std::sin(t), 0});
    return vec<T, 3>{T(v.x), T(v.y), T(v.z)};
  };
  const ref::V3 n = f({0, 0, 1}), m = ref::cross(f({1, 0, 0}), f({0, f.det, 0}));
  const vec<T, 3> up{T(m.x), T(m.y), T(m.z)};
  (void)n;
  const T a = vm::measure_angle(at(st + th), at(st), up), b = vm::measure_angle(at(st + th), at(st), -up);
  NOTE("up=", up, " axis=", at(st), " v=", at(st + th));
  const long double tol = sizeof(T) == 4 ? 2e-3L : 1e-7L;
  CHECK(std::fabs(a - th) <= tol, "measure_angle = ", a, ", expected ", th);
  if (2 * k != N) CHECK(std::fabs(b - (2 * pi - th)) <= tol, "measure_angle with flipped up axis = ", b, ", expected ", 2 * pi - th);
  c.op(2);
  c.state(up, at(st), at(st + th));
}
MC_INSTANCE("measure_skewed_d", (measure_skewed<double>))
MC_INSTANCE("measure_skewed_f", (measure_skewed<float>))
