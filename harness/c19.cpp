// C19  lines and rays locate points and canonicalise uniquely
// mc-flags: -O2 ubsan
// mc-assume: directions are unit vectors; transformations are affine and invertible
#include "mc.hpp"
#include "ref.hpp"
#include <vecmath/abstract_line.h>
#include <vecmath/line.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/ray.h>
#include <vecmath/util.h>
using mc::Ctx;
using ref::R;
using vm::line;
using vm::mat;
using vm::ray;
using vm::vec;

template <class T> constexpr R rtol() { return sizeof(T) == 4 ? 2e-5L : 1e-12L; }
template <std::size_t S> using V = std::array<R, S>;
template <std::size_t S> R dot(const V<S>& a, const V<S>& b) {
  R r = 0;
  for (std::size_t i = 0; i < S; ++i) r += a[i] * b[i];
  return r;
}
template <class T, std::size_t S> vec<T, S> tv(const V<S>& a) {
  vec<T, S> r;
  for (std::size_t i = 0; i < S; ++i) r[i] = T(a[i]);
  return r;
}
template <class T, std::size_t S> V<S> fv(const vec<T, S>& a) {
  V<S> r;
  for (std::size_t i = 0; i < S; ++i) r[i] = a[i];
  return r;
}
template <std::size_t S> R dist(const V<S>& a, const V<S>& b) {
  R r = 0;
  for (std::size_t i = 0; i < S; ++i) r += (a[i] - b[i]) * (a[i] - b[i]);
  return std::sqrt(r);
}
template <std::size_t S> V<S> pt(Ctx& c, const std::vector<R>& A) {
  V<S> p;
  for (auto& x : p) x = c.pick(A);
  return p;
}
// a unit direction from integer components; false if zero
template <std::size_t S> bool direction(Ctx& c, int b, V<S>& d) {
  R l = 0;
  for (auto& x : d) x = c.range(-b, b), l += x * x;
  if (l == 0) return false;
  for (auto& x : d) x /= std::sqrt(l);
  return true;
}

// a unit direction that is close to an axis or has components of very different size
template <std::size_t S> void skewed(Ctx& c, V<S>& d) {
  static const std::vector<R> E{0, 1e-5L, -1e-5L, 1e-3L, -1e-3L, 1e-8L, -1e-8L, 0.25L, -1};
  const std::size_t k = c.choose(S);
  R l = 0;
  for (std::size_t i = 0; i < S; ++i) d[i] = i == k ? (c.flag() ? -1 : 1) : c.pick(E), l += d[i] * d[i];
  for (auto& x : d) x /= std::sqrt(l);
}
// AL = line or ray
template <class AL> void locate(Ctx& c) {
  using T = typename AL::component_type;
  constexpr std::size_t S = AL::size;
  static const std::vector<R> A = S == 2 ? std::vector<R>{0, 1, -3.3L, 64.1L} : std::vector<R>{0, -3.3L, 64.1L};
  static const std::vector<R> Q = S == 2 ? std::vector<R>{0, 2, -1, 16.3L} : std::vector<R>{0, 2, -17.1L};
  V<S> d;
  const auto o = pt<S>(c, A);
  if (!direction<S>(c, S == 2 ? 3 : 2, d)) return c.skip();
  const auto p = pt<S>(c, Q);
  const AL l(tv<T, S>(o), tv<T, S>(d));
  NOTE("origin ", o, " direction ", d, " point ", p);
  CHECK(l.get_origin() == (tv<T, S>(o)) && l.get_direction() == (tv<T, S>(d)), "origin or direction accessor");
  for (R t : {R(0), R(1), R(-2), R(0.5L), R(100)}) {
    const auto q = vm::point_at_distance(l, T(t));
    for (std::size_t i = 0; i < S; ++i) CHECK(mc::close(q[i], o[i] + t * d[i], rtol<T>(), 100), "point at distance ", t, " is ", q);
    CHECK(mc::close(vm::distance_to_projected_point(l, q), t, rtol<T>(), 200), "distance of the point at distance ", t);
  }
  V<S> w;
  for (std::size_t i = 0; i < S; ++i) w[i] = p[i] - o[i];
  const R t = dot<S>(w, d);
  CHECK(mc::close(vm::distance_to_projected_point(l, tv<T, S>(p)), t, rtol<T>(), 100), "distance to projected point is ", vm::distance_to_projected_point(l, tv<T, S>(p)), ", should be ", t);
  const auto pr = vm::project_point(l, tv<T, S>(p));
  V<S> e;
  for (std::size_t i = 0; i < S; ++i) e[i] = o[i] + t * d[i];
  CHECK(dist<S>(fv(pr), e) <= rtol<T>() * 200, "projection is ", pr, ", should be ", e);
  const auto twice = vm::project_point(l, pr);
  CHECK(dist<S>(fv(twice), fv(pr)) <= rtol<T>() * 200, "projecting twice");
  c.op(13);
  c.state(tv<T, S>(o), tv<T, S>(d), tv<T, S>(p));
}
MC_INSTANCE("locate_line_d3", (locate<line<double, 3>>))
MC_INSTANCE("locate_ray_d3", (locate<ray<double, 3>>))
MC_INSTANCE("locate_line_d2", (locate<line<double, 2>>))
MC_INSTANCE("locate_ray_f2", (locate<ray<float, 2>>))
MC_INSTANCE("locate_line_f3", (locate<line<float, 3>>))
MC_INSTANCE("locate_ray_f3", (locate<ray<float, 3>>))

// far and near points, directions close to an axis
template <class AL> void locate_far(Ctx& c) {
  using T = typename AL::component_type;
  constexpr std::size_t S = AL::size;
  V<S> d, o, p;
  skewed<S>(c, d);
  const R zo = c.pick(std::vector<R>{0, 1, 4096}), zp = c.pick(std::vector<R>{1.0L / 1024, 1, 8192, 1048576});
  for (std::size_t i = 0; i < S; ++i) o[i] = zo * (int(i) - 1.5L);
  const int mode = c.range(0, 2); // a point on one side, on the other side, or off the line
  for (std::size_t i = 0; i < S; ++i) p[i] = mode == 0 ? o[i] + zp * d[i] : mode == 1 ? o[i] - zp * d[i] : o[i] + zp * (i % 2 ? 3 : -2);
  for (std::size_t i = 0; i < S; ++i) p[i] = (R)T(p[i]), o[i] = (R)T(o[i]), d[i] = (R)T(d[i]);
  const AL l(tv<T, S>(o), tv<T, S>(d));
  NOTE("origin ", o, " direction ", d, " point ", p);
  const R e = rtol<T>() * (zo + zp) * 8;
  V<S> w, pr;
  for (std::size_t i = 0; i < S; ++i) w[i] = p[i] - o[i];
  const R t = dot<S>(w, d);
  for (std::size_t i = 0; i < S; ++i) pr[i] = o[i] + t * d[i];
  const R g = vm::distance_to_projected_point(l, tv<T, S>(p));
  CHECK(std::fabs(g - t) <= e, "distance to projected point is ", g, ", should be ", t);
  const auto q = vm::project_point(l, tv<T, S>(p)), a = vm::point_at_distance(l, T(t));
  CHECK(dist<S>(fv(q), pr) <= e, "projection is ", q, ", should be ", pr);
  CHECK(dist<S>(fv(a), pr) <= e, "point at distance ", t, " is ", a, ", should be ", pr);
  c.op(3);
  c.state(tv<T, S>(o), tv<T, S>(d), tv<T, S>(p));
}
MC_INSTANCE("far_line_d3", (locate_far<line<double, 3>>))
MC_INSTANCE("far_ray_d3", (locate_far<ray<double, 3>>))
MC_INSTANCE("far_line_d2", (locate_far<line<double, 2>>))
MC_INSTANCE("far_line_f3", (locate_far<line<float, 3>>))
MC_INSTANCE("far_ray_f2", (locate_far<ray<float, 2>>))
MC_INSTANCE("far_line_d4", (locate_far<line<double, 4>>))

// canonical form: two lines through every pair of choices
template <class T, std::size_t S> void canonical(Ctx& c) {
  static const std::vector<R> A{0, 2.1L, -5.3L};
  static const std::vector<R> OFF{0, 1, -3.1L, 8.3L, 64.7L, 4096.3L};
  V<S> d;
  const auto o = pt<S>(c, A);
  if (c.flag()) skewed<S>(c, d);
  else if (!direction<S>(c, S == 2 ? 3 : 1, d)) return c.skip();
  int nz = 0;
  for (R x : d) nz += x != 0;
  const line<T, S> a(tv<T, S>(o), tv<T, S>(d));
  const auto ca = a.make_canonical();
  NOTE("line ", o, " ", d, " canonical ", ca.point, ca.direction);
  const R e = rtol<T>() * 64;
  // the canonical form is the same line, its point is closest to the origin and its direction is positive
  V<S> cp = fv(ca.point), cd = fv(ca.direction);
  CHECK(std::fabs(dot<S>(cp, cd)) <= e, "the canonical point ", ca.point, " is not perpendicular to the direction");
  CHECK(std::fabs(std::fabs(dot<S>(cd, d)) - 1) <= e, "the canonical direction ", ca.direction, " is not parallel");
  for (std::size_t i = 0; i < S; ++i)
    if (cd[i] != 0) {
      CHECK(cd[i] > 0, "the first nonzero component of the canonical direction ", ca.direction, " is negative");
      break;
    }
  V<S> w;
  const R t = dot<S>(cp, d) - dot<S>(o, d);
  for (std::size_t i = 0; i < S; ++i) w[i] = o[i] + t * d[i];
  CHECK(dist<S>(w, cp) <= e, "the canonical point ", ca.point, " is not on the line");
  const auto cc = ca.make_canonical();
  CHECK(dist<S>(fv(cc.point), cp) <= e && dist<S>(fv(cc.direction), cd) <= e, "canonicalising twice");
  // the same line from another origin and with the other direction
  const R off = c.pick(OFF);
  const bool flip = c.flag();
  V<S> o2, d2;
  for (std::size_t i = 0; i < S; ++i) o2[i] = o[i] + off * d[i], d2[i] = flip ? -d[i] : d[i];
  const line<T, S> b(tv<T, S>(o2), tv<T, S>(d2));
  const auto cb = b.make_canonical();
  CHECK(dist<S>(fv(cb.point), cp) <= e * std::fmax(R(1), off / 16) && dist<S>(fv(cb.direction), cd) <= e, "the same line from ", o2, " along ", d2, " has the canonical form ", cb.point, cb.direction);
  if (nz == 1) CHECK((a == b) && !(a != b) && b == a, "the same line from ", o2, " along ", d2, " compares different");
  // a line moved sideways or turned is different
  for (std::size_t k = 0; k < S; ++k) {
    V<S> o3 = o2;
    o3[k] += 1;
    // still on the line?
    V<S> df;
    for (std::size_t i = 0; i < S; ++i) df[i] = o3[i] - o[i];
    const R along = dot<S>(df, d);
    const bool on = dot<S>(df, df) - along * along < 1e-9L;
    const line<T, S> m(tv<T, S>(o3), tv<T, S>(d2));
    if (!on) CHECK(!(a == m) && a != m && !(m == a), "a different line through ", o3, " compares equal");
    V<S> d3 = d2;
    d3[k] += 0.5L;
    R l = std::sqrt(dot<S>(d3, d3));
    for (auto& x : d3) x /= l;
    if (1 - std::fabs(dot<S>(d3, d)) > 1e-3L) {
      const line<T, S> n(tv<T, S>(o2), tv<T, S>(d3));
      CHECK(!(a == n) && a != n, "a line along ", d3, " compares equal");
    }
  }
  c.op(6 + 4 * S);
  c.state(tv<T, S>(o), tv<T, S>(d), T(off), flip);
}
MC_INSTANCE("canonical_d3", (canonical<double, 3>))
MC_INSTANCE("canonical_f3", (canonical<float, 3>))
MC_INSTANCE("canonical_d2", (canonical<double, 2>))

// equality, tolerance, conversion
template <class T, class U> void equality(Ctx& c) {
  static const std::vector<T> D{T(0), T(0.125), T(-0.25), T(0.5), T(-1)};
  static const std::vector<T> E{T(0), T(0.125), T(0.25), T(1)};
  vec<T, 3> o{T(1), T(-2), T(3)}, d{T(0), T(0), T(1)};
  const line<T, 3> l(o, d);
  const ray<T, 3> r(o, d);
  const int k = c.range(0, 5), k2 = c.range(0, 5);
  const T x = c.pick(D), x2 = c.pick(D), e = c.pick(E);
  (k < 3 ? o[k] : d[k - 3]) += x;
  (k2 < 3 ? o[k2] : d[k2 - 3]) += x2;
  const line<T, 3> l2(o, d);
  const ray<T, 3> r2(o, d);
  bool same = true, near = true;
  for (int i = 0; i < 3; ++i) {
    same = same && o[i] == r.origin[i] && d[i] == r.direction[i];
    near = near && std::fabs(o[i] - r.origin[i]) <= e && std::fabs(d[i] - r.direction[i]) <= e;
  }
  NOTE("other ", o, d, " epsilon ", e);
  CHECK((r == r2) == same && (r != r2) == !same && (r2 == r) == same, "ray equality");
  CHECK(vm::is_equal(r, r2, e) == near && vm::is_equal(r2, r, e) == near, "ray is_equal");
  CHECK(vm::is_equal(l, l2, e) == near && vm::is_equal(l2, l, e) == near, "line is_equal");
  const line<U, 3> lu(l2);
  const ray<U, 3> ru(r2);
  for (int i = 0; i < 3; ++i) {
    CHECK(lu.point[i] == U(o[i]) && lu.direction[i] == U(d[i]), "line conversion");
    CHECK(ru.origin[i] == U(o[i]) && ru.direction[i] == U(d[i]), "ray conversion");
  }
  const line<T, 3> ld;
  const ray<T, 3> rd;
  CHECK(ld.point == (vec<T, 3>::zero()) && ld.direction == (vec<T, 3>::zero()) && rd.origin == (vec<T, 3>::zero()) && rd.direction == (vec<T, 3>::zero()), "default construction");
  c.op(9);
  c.state(o, d, e);
}
MC_INSTANCE("equality_d", (equality<double, float>))
MC_INSTANCE("equality_f", (equality<float, double>))

// transformation: translation, axis permutation with signs, non-uniform scaling, shear
template <class T> void transform(Ctx& c) {
  using namespace ref;
  static const std::vector<R> A{0, 1, -4.1L};
  static const std::vector<R> SC{1, -1, 2, 0.3L};
  const auto o = pt<3>(c, A);
  std::array<R, 3> d;
  if (c.flag()) skewed<3>(c, d);
  else if (!direction<3>(c, 1, d)) return c.skip();
  auto m = mat<T, 4, 4>::identity();
  const int kind = c.range(0, 2);
  if (kind == 0) {
    const int k = c.range(0, 2);
    const R s0 = c.pick(SC), s1 = c.pick(SC), s2 = c.pick(SC);
    m[0][k] = m[1][(k + 1) % 3] = m[2][(k + 2) % 3] = T(0);
    m[0][0] = m[1][1] = m[2][2] = T(0);
    m[0][k] = T(s0), m[1][(k + 1) % 3] = T(s1), m[2][(k + 2) % 3] = T(s2);
  } else if (kind == 1) {
    const int a = c.range(0, 2), b = (a + 1 + c.range(0, 1)) % 3;
    m[a][b] = T(c.pick(SC));
  } else {
    const R an = PI / 6 * c.range(1, 11);
    const int a = c.range(0, 2), b = (a + 1) % 3;
    m[a][a] = m[b][b] = T(std::cos(an)), m[a][b] = T(std::sin(an)), m[b][a] = T(-std::sin(an));
  }
  const int t = c.range(0, 2);
  m[3][0] = T(t), m[3][1] = T(-7 * t), m[3][2] = T(32 * t);
  NOTE("origin ", o, " direction ", d, " matrix columns ", m[0], m[1], m[2], m[3]);
  V3 po, pd;
  for (int i = 0; i < 3; ++i) {
    po[i] = (R)m[3][i], pd[i] = 0;
    for (int j = 0; j < 3; ++j) po[i] += (R)m[j][i] * o[j], pd[i] += (R)m[j][i] * d[j];
  }
  pd = unit(pd);
  const line<T, 3> l(tv<T, 3>(o), tv<T, 3>(d));
  const ray<T, 3> r(tv<T, 3>(o), tv<T, 3>(d));
  const auto l1 = l.transform(m), l2 = l.transform_c(m);
  const auto r1 = r.transform(m), r2 = r.transform_c(m);
  const R e = rtol<T>() * 100;
  CHECK(near(from(l1.point), po, e) && near(from(l1.direction), pd, e), "line becomes ", l1.point, l1.direction, ", should be ", str(po), str(pd));
  CHECK(near(from(l2.point), po, e) && near(from(l2.direction), pd, e), "line (transform_c) becomes ", l2.point, l2.direction);
  CHECK(near(from(r1.origin), po, e) && near(from(r1.direction), pd, e), "ray becomes ", r1.origin, r1.direction, ", should be ", str(po), str(pd));
  CHECK(near(from(r2.origin), po, e) && near(from(r2.direction), pd, e), "ray (transform_c) becomes ", r2.origin, r2.direction);
  c.op(4);
  c.state(tv<T, 3>(o), tv<T, 3>(d), m[0], m[1], m[2], m[3]);
}
MC_INSTANCE("transform_d", (transform<double>))
MC_INSTANCE("transform_f", (transform<float>))

// ray point status
template <class T, std::size_t S> void status(Ctx& c) {
  static const std::vector<R> A{0, 1, -4.1L};
  static const std::vector<R> OFF{0, 1e-5L, -1e-5L, 1e-3L, -1e-3L, 1, -1, 64, -64, 0.03L, -0.03L, 4096, -4096};
  const auto o = pt<S>(c, A);
  V<S> d, s;
  if (c.flag()) skewed<S>(c, d);
  else if (!direction<S>(c, 2, d)) return c.skip();
  const R off = c.pick(OFF);
  for (auto& x : s) x = c.range(-1, 1) * 5;
  // remove the part along the direction, then move along it
  const R k = dot<S>(s, d);
  V<S> p;
  for (std::size_t i = 0; i < S; ++i) p[i] = o[i] + s[i] - k * d[i] + off * d[i];
  const ray<T, S> r(tv<T, S>(o), tv<T, S>(d));
  const auto w = off > 1e-4L ? vm::plane_status::above : off < -1e-4L ? vm::plane_status::below : vm::plane_status::inside;
  NOTE("ray ", o, d, " point ", p, " offset ", off);
  CHECK(r.point_status(tv<T, S>(p)) == w, "point status at offset ", off);
  c.op();
  c.state(tv<T, S>(o), tv<T, S>(d), tv<T, S>(p));
}
MC_INSTANCE("status_d3", (status<double, 3>))
MC_INSTANCE("status_f3", (status<float, 3>))
MC_INSTANCE("status_d2", (status<double, 2>))

// equality is exact: a difference in the last place of a single number counts
template <class T> void last_place(Ctx& c) {
  static const std::vector<T> A{T(0), T(1), T(-1), T(0.6), T(1e-6), T(4096)};
  vec<T, 3> o{c.pick(A), c.pick(A), c.pick(A)}, d;
  const uint32_t ax = c.choose(3);
  d[ax] = c.flag() ? T(1) : T(-1);
  const ray<T, 3> r(o, d);
  const line<T, 3> l(o, d);
  const uint32_t k = c.choose(7);
  const T to = c.flag() ? T(1e9) : T(-1e9);
  const int steps = c.pick(std::vector<int>{1, 2, 1000});
  if (k < 6) {
    T& x = k < 3 ? o[k] : d[k - 3];
    for (int i = 0; i < steps; ++i) x = std::nextafter(x, to);
  }
  const ray<T, 3> r2(o, d);
  const line<T, 3> l2(o, d);
  NOTE("ray ", r.origin, r.direction, " changed in number ", k);
  const bool same = k == 6;
  CHECK((r == r2) == same && (r2 == r) == same && (r != r2) == !same && (r2 != r) == !same, "ray equality");
  CHECK(vm::is_equal(r, r2, T(0)) == same && vm::is_equal(l, l2, T(0)) == same, "comparison with a tolerance of 0");
  if (k < 3 || same) { // moving the point of an axis-parallel line along it changes nothing, moving it sideways does
    const bool eq = same || k == ax;
    CHECK((l == l2) == eq && (l2 == l) == eq && (l != l2) == !eq && (l2 != l) == !eq, "line equality");
  }
  c.op(10);
  c.state(o, d, k);
}
MC_INSTANCE("last_place_d", (last_place<double>))
MC_INSTANCE("last_place_f", (last_place<float>))
