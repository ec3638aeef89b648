// C12  quaternions rotate, compose and compare as rotations
// mc-flags: -O2 ubsan
// mc-assume: axes and directions are unit vectors (normalised lattice directions and small perturbations of them); quaternions related by negating only the real part are a known finding and not compared
#include "mc.hpp"
#include "ref.hpp"
#include <vecmath/quat.h>
using mc::Ctx;
using vm::quat;
using vm::vec;
using namespace ref;

template <class T> constexpr R rtol() { return sizeof(T) == 4 ? 2e-5L : 1e-12L; }
template <class T> vec<T, 3> tv(V3 p) { return vec<T, 3>{T(p.x), T(p.y), T(p.z)}; }
template <class T> std::vector<T> angles(bool fine) {
  std::vector<T> a;
  for (int k = -12; k <= 24; k += fine ? 1 : 2) a.push_back(T(k * PI / 12));
  for (R x : {1e-3L, -0.01L, 0.1L, 1.0L, 3.0L, 3.2L, 6.2L}) a.push_back(T(x));
  if (fine)
    for (R x : {1e-6L, 1e-4L, 0.006L, 0.011L, 0.02L, 0.03L, 0.05L, 0.07L, -0.008L, 2.0L, -2.5L, 3.1L, 3.1415L, 3.15L}) a.push_back(T(x));
  return a;
}
static const std::vector<V3> PTS{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -2, 3}, {-5, 0.5L, 2}};
static V3 dir(Ctx& c, int N) {
  const int x = c.range(-N, N), y = c.range(-N, N), z = c.range(-N, N);
  if (x == 0 && y == 0 && z == 0) {
    c.skip();
    return {};
  }
  return unit(V3{(R)x, (R)y, (R)z});
}
template <class T> V3 rot(const quat<T>& q, V3 p) { return from(q * tv<T>(p)); }
template <class T> R norm(const quat<T>& q) { return std::sqrt((R)q.r * q.r + dot(from(q.v), from(q.v))); }

template <class T> void axis_angle(Ctx& c) {
  static const auto A = angles<T>(true);
  const V3 u = dir(c, c.tiered(4, 7));
  if (c.is_skipped()) return;
  const T a = c.pick(A);
  const quat<T> q(tv<T>(u), a);
  NOTE("axis ", str(u), " angle ", a);
  CHECK(std::fabs(norm(q) - 1) <= rtol<T>(), "not a unit quaternion");
  for (V3 p : PTS) {
    CHECK(near(rot(q, p), rotate(p, u, a), rtol<T>() * 16), "quaternion about ", str(u), " by ", a, " takes ", str(p), " to ", str(rot(q, p)), ", should be ", str(rotate(p, u, a)));
    CHECK(near(rot(q.conjugate(), p), rotate(p, u, -(R)a), rtol<T>() * 16), "conjugate does not rotate back: ", str(p));
    CHECK(near(rot(q.conjugate(), rot(q, p)), p, rtol<T>() * 16), "conjugate does not undo the rotation of ", str(p));
  }
  CHECK(q.conjugate().r == q.r && q.conjugate().v == -q.v, "conjugate components");
  CHECK(near(rot(q, u), u, rtol<T>() * 4), "axis not fixed");
  // reading axis and angle back yields the same rotation
  const T back = q.angle();
  CHECK(std::isfinite(back) && back >= 0 && back <= 2 * PI + rtol<T>(), "angle() = ", back);
  if (std::fabs(std::sin((R)a / 2)) > (sizeof(T) == 4 ? 0.01L : 0.0025L)) {
    const auto ax = q.axis();
    CHECK(std::fabs(len(from(ax)) - 1) <= rtol<T>() * 1000, "axis() of the quaternion about ", str(u), " by ", a, " is not a unit vector: ", ax);
    CHECK(near(rotate({1, -2, 3}, from(ax), back), rotate({1, -2, 3}, u, a), rtol<T>() * 1000), "axis() = ", ax, " and angle() = ", back, " describe a different rotation than axis ", str(u), " angle ", a);
    if (a > 0 && a < 2 * PI - 0.01L) CHECK(near(from(ax), u, rtol<T>() * 1000) && mc::close(back, a, rtol<T>() * 1000), "axis() = ", ax, " and angle() = ", back, " differ from axis ", str(u), " angle ", a);
  }
  // identity of q * conjugate
  const auto id = q * q.conjugate();
  CHECK(std::fabs(id.r - 1) <= rtol<T>() && near(from(id.v), {0, 0, 0}, rtol<T>()), "q * conjugate is not the identity");
  const T ia = id.angle();
  CHECK(std::isfinite(ia) && (ia <= (sizeof(T) == 4 ? 5e-3 : 1e-6)), "the angle of q * conjugate is ", ia);
  CHECK(!vm::is_nan(id.axis()), "axis of the identity is NaN");
  c.op(8);
  c.state(tv<T>(u), a);
}
MC_INSTANCE("axis_angle_d", (axis_angle<double>))
MC_INSTANCE("axis_angle_f", (axis_angle<float>))

template <class T> void compose(Ctx& c) {
  static const auto A = angles<T>(false);
  const V3 u = dir(c, 1), w = dir(c, 1);
  if (c.is_skipped()) return;
  const T a = c.pick(A), b = c.pick(A);
  const quat<T> p(tv<T>(u), a), q(tv<T>(w), b);
  NOTE("p: ", str(u), " ", a, "  q: ", str(w), " ", b);
  const auto pq = p * q;
  CHECK(std::fabs(norm(pq) - 1) <= rtol<T>(), "product is not a unit quaternion");
  for (V3 x : {V3{1, -2, 3}, V3{0, 0, 1}}) {
    const V3 want = rotate(rotate(x, w, b), u, a);
    CHECK(near(rot(pq, x), want, rtol<T>() * 32), "product takes ", str(x), " to ", str(rot(pq, x)), ", composition gives ", str(want));
  }
  const auto l = (p * q).conjugate(), r = q.conjugate() * p.conjugate();
  CHECK(std::fabs((R)l.r - r.r) <= rtol<T>() && near(from(l.v), from(r.v), rtol<T>()), "(pq)* != q* p*");
  CHECK(std::isfinite(pq.angle()), "angle of the product is ", pq.angle());
  c.op(3);
  c.state(p.r, p.v, q.r, q.v);
}
MC_INSTANCE("compose_d", (compose<double>))
MC_INSTANCE("compose_f", (compose<float>))

// three factors: associativity, and histories of repeated multiplication stay rotations
template <class T> void chains(Ctx& c) {
  static const std::vector<std::pair<V3, R>> G{{{1, 0, 0}, PI / 2}, {{0, 1, 0}, 1.0L}, {unit({1, 1, 1}), 2 * PI / 3}, {unit({1, -2, 0}), -0.3L}, {{0, 0, -1}, PI}};
  quat<T> q(T(1), vec<T, 3>());
  V3 x{1, -2, 3}, y = x;
  const int n = c.range(1, c.tiered(7, 8));
  quat<T> rassoc(T(1), vec<T, 3>());
  std::vector<quat<T>> qs;
  for (int i = 0; i < n; ++i) {
    const auto& g = c.pick(G);
    const quat<T> p(tv<T>(g.first), T(g.second));
    qs.push_back(p);
    q = p * q;
    y = rotate(y, g.first, T(g.second));
    CHECK(near(rot(q, x), y, rtol<T>() * 64), "after ", i + 1, " rotations ", str(x), " is at ", str(rot(q, x)), ", should be at ", str(y));
    c.op();
  }
  for (int i = 0; i < n; ++i) rassoc = rassoc * qs[n - 1 - i];
  CHECK(std::fabs((R)rassoc.r - q.r) <= rtol<T>() * 8 && near(from(rassoc.v), from(q.v), rtol<T>() * 8), "product is not associative");
  CHECK(near(rot(q.conjugate(), rot(q, x)), x, rtol<T>() * 64), "conjugate does not undo the product");
  c.state(q.r, q.v);
}
MC_INSTANCE("chains_d", (chains<double>))
MC_INSTANCE("chains_f", (chains<float>))

// from -> to, including (nearly) equal and (nearly) opposite directions
template <class T> void from_to(Ctx& c) {
  const V3 a = dir(c, c.tiered(2, 3));
  if (c.is_skipped()) return;
  V3 b;
  if (c.flag()) {
    b = dir(c, c.tiered(4, 7));
    if (c.is_skipped()) return;
  } else {
    static const std::vector<R> NEAR{0, 1e-5L, 1e-4L, 5e-4L, 1.5e-3L, 2e-3L, 3e-3L, 5e-3L, 0.01L, 0.02L, 0.03L, 0.04L, 0.05L, 0.1L, 0.5L, 1.5L};
    const R e = c.pick(NEAR);
    const V3 s = perp(a), t = cross(a, s);
    const int k = c.range(0, 5);
    const V3 d = s * std::cos(k * PI / 3 + 0.1L) + t * std::sin(k * PI / 3 + 0.1L);
    b = (c.flag() ? -a : a) * std::cos(e) + d * std::sin(e);
  }
  NOTE("from ", str(a), " to ", str(b));
  const quat<T> q(tv<T>(a), tv<T>(b));
  CHECK(std::fabs(norm(q) - 1) <= rtol<T>() * 4, "not a unit quaternion");
  CHECK(near(rot(q, a), b, 2e-3L), "quat(", str(a), ", ", str(b), ") takes the first vector to ", str(rot(q, a)));
  const R sin = len(cross(a, b));
  if (sin > 0.0012L) {
    CHECK(near(rot(q, a), b, sizeof(T) == 4 ? 1e-3L : 1e-7L), "quat(", str(a), ", ", str(b), ") takes the first vector to ", str(rot(q, a)));
    const V3 n = unit(cross(a, b));
    CHECK(near(rot(q, n), n, sizeof(T) == 4 ? 1e-3L : 1e-7L), "not the shortest rotation from ", str(a), " to ", str(b));
  } else if (dot(a, b) < 0) {
    // half turn about a perpendicular axis
    CHECK(std::fabs(dot(from(q.v), a)) <= 2e-3L, "axis of the half turn is not perpendicular: ", q.v, " for ", str(a));
  } else {
    for (V3 p : PTS) CHECK(near(rot(q, p), p, 0.1L), "not the shortest rotation for (nearly) equal vectors: ", str(a), " ", str(b));
  }
  for (V3 p : PTS) CHECK(std::fabs(len(rot(q, p)) - len(p)) <= rtol<T>() * 32, "length not preserved");
  c.op(2);
  c.state(tv<T>(a), tv<T>(b));
}
MC_INSTANCE("from_to_d", (from_to<double>))
MC_INSTANCE("from_to_f", (from_to<float>))

// algebra on arbitrary (not only unit) lattice quaternions: Hamilton product, scaling, equality
template <class T> void algebra(Ctx& c) {
  static const std::vector<T> V{T(0), T(1), T(-2)};
  auto mk = [&] {
    const T r = c.pick(V), x = c.pick(V), y = c.pick(V), z = c.pick(V);
    return quat<T>(r, vec<T, 3>{x, y, z});
  };
  const auto p = mk(), q = mk();
  NOTE("p=", p.r, " ", p.v, " q=", q.r, " ", q.v);
  const auto m = p * q;
  const T a1 = p.r, b1 = p.v[0], c1 = p.v[1], d1 = p.v[2], a2 = q.r, b2 = q.v[0], c2 = q.v[1], d2 = q.v[2];
  CHECK(m.r == a1 * a2 - b1 * b2 - c1 * c2 - d1 * d2 && m.v[0] == a1 * b2 + b1 * a2 + c1 * d2 - d1 * c2 && m.v[1] == a1 * c2 - b1 * d2 + c1 * a2 + d1 * b2 && m.v[2] == a1 * d2 + b1 * c2 - c1 * b2 + d1 * a2, "Hamilton product of ", p.r, p.v, " and ", q.r, q.v, " is ", m.r, m.v);
  for (const T s : {T(0), T(3), T(-0.5)}) {
    const auto x = p * s, y = s * p;
    CHECK(x.r == p.r * s && y.r == p.r * s && x.v == p.v * s && y.v == p.v * s, "scalar product of ", p.r, p.v, " with ", s, " is ", x.r, x.v);
  }
  CHECK((+p).r == p.r && (+p).v == p.v, "unary plus");
  CHECK((-p).r == -p.r, "unary minus");
  CHECK(p == -p && vm::is_equal(p, -p, T(0)) && !(p != -p), "a quaternion differs from its negation");
  CHECK(p == p && !(p != p) && vm::is_equal(p, p, T(0)), "a quaternion differs from itself");
  CHECK((p == q) != (p != q), "== and != are not complementary");
  CHECK((p == q) == (q == p), "== is not symmetric");
  CHECK((p == q) == vm::is_equal(p, q, T(0)), "is_equal with epsilon 0 differs from ==");
  const bool same = p.r == q.r && p.v == q.v;
  // (r,v)/(-r,v) and (r,v)/(-r,-v): see known_findings.txt
  const bool excluded = p.r == -q.r && (p.v == q.v || p.v == -q.v);
  if (!excluded) CHECK((p == q) == same, "equality of ", p.r, p.v, " and ", q.r, q.v);
  if (!excluded || same) {
    auto q2 = q;
    const int k = c.range(0, 3);
    (k == 0 ? q2.r : q2.v[k - 1]) += T(0.01);
    if (same) {
      CHECK(vm::is_equal(p, q2, T(0.02)) && !vm::is_equal(p, q2, T(0.005)), "is_equal does not honour its epsilon at component ", k);
      CHECK(!(p == q2) && p != q2, "== ignores a difference in component ", k);
    }
  }
  const quat<float> f(p);
  CHECK(f.r == float(p.r) && (f.v == vec<float, 3>(p.v)), "conversion");
  const quat<T> z;
  CHECK(z.r == T(0) && z.v == (vec<T, 3>::zero()), "default");
  c.op(12);
  c.state(p.r, p.v, q.r, q.v);
}
MC_INSTANCE("algebra_d", (algebra<double>))
MC_INSTANCE("algebra_f", (algebra<float>))

// dense and large angles, and vectors of any length
template <class T> void dense(Ctx& c) {
  static const std::vector<V3> U{{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {1, 1, 1}, {1, 0.001L, 0}, {-0.002L, 0.001L, 1}, {1e-5L, 1, 1e-5L}, {-2, 5, 0.25L}};
  static const std::vector<R> L{1, 1e-3L, 1e-6L, 1e-12L, 1e3L, 1e6L, 1e12L};
  const V3 u = unit(c.pick(U));
  const int n = c.tiered(2, 10), k = c.range(-400 * n, 800 * n);
  const T a = T(R(k) / n * PI / 180);
  const quat<T> q(tv<T>(u), a);
  NOTE("axis ", str(u), " angle ", a);
  for (R l : L) {
    const V3 p = V3{1, -2, 3} * l, w = rotate(p, u, a);
    CHECK(len(rot(q, p) - w) <= rtol<T>() * 16 * l, "quaternion about ", str(u), " by ", a, " takes ", str(p), " to ", str(rot(q, p)), ", should be ", str(w));
  }
  c.op(L.size());
  // axis and angle of the product with a fixed rotation
  const quat<T> b(tv<T>({0, 0.6L, -0.8L}), T(0.7));
  const quat<T> pr = q * b;
  const V3 want = rotate(rotate({1, -2, 3}, {0, 0.6L, -0.8L}, T(0.7)), u, a);
  CHECK(near(rot(pr, {1, -2, 3}), want, rtol<T>() * 32), "product");
  if (len(from(pr.v)) > 0.01L) CHECK(near(rotate({1, -2, 3}, from(pr.axis()), pr.angle()), want, rtol<T>() * 2000), "axis() = ", pr.axis(), " and angle() = ", pr.angle(), " of a product");
  c.op(2);
  c.state(tv<T>(u), a);
}
MC_INSTANCE("dense_d", (dense<double>))
MC_INSTANCE("dense_f", (dense<float>))
// equality: one component changed, at any magnitude
template <class T> void equality(Ctx& c) {
  static const std::vector<T> V{T(0), T(0.001), T(0.5), T(-1), T(100)};
  static const std::vector<T> D{T(1e-7), T(1e-4), T(0.001), T(0.25)};
  T x[4];
  for (T& y : x) y = c.pick(V);
  const int k = c.range(0, 3);
  const T d = c.pick(D) * (c.flag() ? T(1) : T(-1));
  const quat<T> p(x[0], vec<T, 3>(x[1], x[2], x[3]));
  x[k] += d;
  const quat<T> q(x[0], vec<T, 3>(x[1], x[2], x[3]));
  if (k == 0 && p.r == -q.r) return c.skip(); // see known_findings.txt
  const T e = std::fabs((k == 0 ? p.r : p.v[k - 1]) - (k == 0 ? q.r : q.v[k - 1]));
  if (e != T(0) && e < std::numeric_limits<T>::epsilon() * 64 * std::fabs(x[k])) return c.skip(); // not distinguishable by a sum with epsilon
  NOTE("p=", p.r, " ", p.v, " q=", q.r, " ", q.v);
  CHECK((p == q) == (e == T(0)) && (p != q) == (e != T(0)), "== or != ignores a difference of ", e, " in component ", k);
  const bool alias = k == 0 && std::fabs(p.r + q.r) <= e * T(4); // the real part may be negated
  CHECK(vm::is_equal(p, q, e * T(1.5) + std::numeric_limits<T>::denorm_min()), "different with an epsilon above the difference ", e);
  if (!alias && e > T(0)) CHECK(!vm::is_equal(p, q, e * T(0.5)), "equal with an epsilon below the difference ", e);
  c.op(4);
  c.state(p.r, p.v, k, d);
}
MC_INSTANCE("equality_d", (equality<double>))
MC_INSTANCE("equality_f", (equality<float>))

// axes, vectors and directions with components in every order of size and with every sign
template <class T> void skewed(Ctx& c) {
  static const std::vector<R> A{0.4L, -1.3L, 2.2L, PI, 5.1L};
  static const std::vector<V3> D{{1, 0, 0}, {0, 0, 1}, {1, -2, 2}};
  const Frame &f = c.pick(frames()), &g = frames()[(c.choose(8) * 11 + 5) % 48];
  const V3 u = f(unit(c.pick(D))), w = g(unit(c.pick(D)));
  const T a = T(c.pick(A)), b = T(c.pick(A));
  const quat<T> p(tv<T>(u), a), q(tv<T>(w), b);
  NOTE("p: ", str(u), " ", a, "  q: ", str(w), " ", b);
  const auto pq = p * q;
  for (V3 x : {f({3, -1, 0.5L}), g({0, 2, -1})}) {
    CHECK(near(rot(p, x), rotate(x, u, a), rtol<T>() * 32), "p takes ", str(x), " to ", str(rot(p, x)), ", should be ", str(rotate(x, u, a)));
    const V3 want = rotate(rotate(x, w, b), u, a);
    CHECK(near(rot(pq, x), want, rtol<T>() * 64), "product takes ", str(x), " to ", str(rot(pq, x)), ", composition gives ", str(want));
    CHECK(near(rot(p.conjugate(), rot(p, x)), x, rtol<T>() * 64), "the conjugate does not undo the rotation of ", str(x));
  }
  if (len(u + w) > 0.05L) {
    const quat<T> t(tv<T>(u), tv<T>(w));
    CHECK(near(rot(t, u), w, rtol<T>() * 32), "from-to takes ", str(u), " to ", str(rot(t, u)), ", should be ", str(w));
    if (len(u - w) > 0.05L) CHECK(near(rot(t, unit(cross(u, w))), unit(cross(u, w)), rtol<T>() * 200), "from-to does not keep its axis");
  }
  c.op(4);
  c.state(p.r, p.v, q.r, q.v);
}
MC_INSTANCE("skewed_d", (skewed<double>))
MC_INSTANCE("skewed_f", (skewed<float>))
