// C20  planes classify, project and transform points consistently
// mc-flags: -O2 ubsan
// mc-assume: normals are unit vectors, projection directions are not almost parallel to the plane, transformations preserve angles, statuses are asked away from the tolerance
#include "mc.hpp"
#include "ref.hpp"
#include <forward_list>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/plane.h>
#include <vecmath/util.h>
using mc::Ctx;
using vm::mat;
using vm::plane;
using vm::vec;
using namespace ref;

template <class T> constexpr R rtol() { return sizeof(T) == 4 ? 2e-5L : 1e-12L; }
template <class T> vec<T, 3> tv(V3 p) { return vec<T, 3>{T(p.x), T(p.y), T(p.z)}; }
static V3 pt(Ctx& c, const std::vector<R>& A) {
  const R x = c.pick(A), y = c.pick(A), z = c.pick(A);
  return {x, y, z};
}
static V3 dir(Ctx& c, int b) {
  const V3 d{R(c.range(-b, b)), R(c.range(-b, b)), R(c.range(-b, b))};
  if (len(d) == 0) {
    c.skip();
    return d;
  }
  return unit(d);
}

// three points: every triple of a grid
template <class T> void three(Ctx& c) {
  static const std::vector<R> A{0, 1, -1};
  static const std::vector<R> SH{0, 3, -64};
  static const std::vector<R> SCALE{1, 0.125L, 512};
  R k = c.pick(SCALE), sh = c.pick(SH);
  const V3 l1 = pt(c, A), l2 = pt(c, A), l3 = pt(c, A);
  if (len(cross(l3 - l1, l2 - l1)) > 0) k *= 1.1L, sh *= 0.9L; // colinear points stay exactly representable
  const V3 o{sh, -sh, sh / 2};
  const V3 p1 = l1 * k + o, p2 = l2 * k + o, p3 = l3 * k + o;
  const V3 n = cross(p3 - p1, p2 - p1);
  const bool ok = len(n) > 1e-12L;
  NOTE("points ", str(p1), str(p2), str(p3));
  const auto [valid, pl] = vm::from_points(tv<T>(p1), tv<T>(p2), tv<T>(p3));
  const auto [nvalid, normal] = vm::plane_normal(tv<T>(p1), tv<T>(p2), tv<T>(p3));
  CHECK(valid == ok && nvalid == ok, "the plane is ", valid ? "accepted" : "refused", ", the normal is ", nvalid ? "accepted" : "refused", " for points that are ", ok ? "not " : "", "colinear");
  if (ok) {
    const R e = rtol<T>() * 300;
    CHECK(near(from(pl.normal), unit(n), rtol<T>() * 10), "normal ", pl.normal, ", should be ", str(unit(n)));
    CHECK(near(from(normal), unit(n), rtol<T>() * 10), "plane_normal ", normal, ", should be ", str(unit(n)));
    for (V3 p : {p1, p2, p3}) CHECK(std::fabs(dot(from(pl.normal), p) - pl.distance) <= e * (1 + len(p)), "point ", str(p), " is not on the plane");
    // seen from above the points are clockwise
    CHECK(dot(cross(p2 - p1, p3 - p2), from(pl.normal)) < 0, "the points are not clockwise as seen from above");
  }
  // the same through a range, with a mapping and with too few points
  const std::forward_list<vec<T, 3>> ps{tv<T>(p1), tv<T>(p2), tv<T>(p3), vec<T, 3>::fill(T(77))};
  const auto [v2, pl2] = vm::from_points(ps.begin(), ps.end());
  CHECK(v2 == ok && pl2 == pl, "from_points of a range differs");
  const std::vector<std::pair<int, vec<T, 3>>> pairs{{1, tv<T>(p1)}, {2, tv<T>(p2)}, {3, tv<T>(p3)}};
  const auto get = [](const std::pair<int, vec<T, 3>>& x) -> const vec<T, 3>& { return x.second; };
  const auto [v3, pl3] = vm::from_points(pairs.begin(), pairs.end(), get);
  CHECK(v3 == ok && pl3 == pl, "from_points of a mapped range differs");
  const std::vector<vec<T, 3>> moved{tv<T>(p1), tv<T>(p2), tv<T>(p3)};
  const auto [v4, pl4] = vm::from_points(moved.begin(), moved.end(), [](const vec<T, 3>& x) { return vec<T, 3>{-x[1], x[0], x[2]}; });
  const auto [v5, pl5] = vm::from_points(tv<T>({-p1.y, p1.x, p1.z}), tv<T>({-p2.y, p2.x, p2.z}), tv<T>({-p3.y, p3.x, p3.z}));
  CHECK(v4 == v5 && pl4 == pl5, "from_points of a mapped range ignores the mapping");
  for (int n3 = 0; n3 < 3; ++n3) CHECK(!std::get<0>(vm::from_points(moved.begin(), moved.begin() + n3)), "a plane is made of ", n3, " points");
  c.op(9);
  c.state(tv<T>(p1), tv<T>(p2), tv<T>(p3));
}
MC_INSTANCE("three_d", (three<double>))
MC_INSTANCE("three_f", (three<float>))

// classification, projection and coordinates
template <class T> void classify(Ctx& c) {
  static const std::vector<R> DI{0, 5.1L, -64.3L};
  static const std::vector<R> OFF{0, 1e-5L, -1e-5L, 1e-3L, -1e-3L, 1, -1, 100, -100};
  const V3 n = dir(c, 2);
  if (c.is_skipped()) return;
  const R d = c.pick(DI);
  const plane<T, 3> pl(T(d), tv<T>(n));
  const V3 s = perp(n), t = cross(n, s);
  const int ku = c.range(-1, 1), kv = c.range(-1, 1);
  const R off = c.pick(OFF);
  const V3 base = n * d + s * (ku * 7) + t * (kv * 3), p = base + n * off;
  const R e = rtol<T>() * 300;
  NOTE("plane ", str(n), " ", d, " point ", str(p), " offset ", off);
  CHECK(near(from(pl.anchor()), n * d, e), "anchor ", pl.anchor());
  CHECK(mc::close(pl.point_distance(tv<T>(p)), off, 0) || std::fabs(pl.point_distance(tv<T>(p)) - off) <= e, "distance ", pl.point_distance(tv<T>(p)), ", should be ", off);
  const auto want = [&](R eps) { return off > eps ? vm::plane_status::above : off < -eps ? vm::plane_status::below : vm::plane_status::inside; };
  if (sizeof(T) == 8 || std::fabs(off) != 1e-5L) CHECK(pl.point_status(tv<T>(p)) == want(1e-4L), "point status at ", off);
  for (R eps : {R(0.5L), R(10), R(200)}) CHECK(pl.point_status(tv<T>(p), T(eps)) == want(eps), "point status at ", off, " with epsilon ", eps);
  // flipping
  const auto f = pl.flip();
  CHECK(f.normal == -pl.normal && f.distance == -pl.distance, "flip gives ", f.normal, " ", f.distance);
  CHECK(std::fabs(f.point_distance(tv<T>(p)) + off) <= e, "flipped distance");
  CHECK(f.flip() == pl, "flipping twice");
  // projection
  const V3 q = from(pl.project_point(tv<T>(p)));
  CHECK(near(q, base, e), "projection ", str(q), ", should be ", str(base));
  const V3 v = s * (ku * 7) + t * (kv * 3) + n * off, pv = from(pl.project_vector(tv<T>(v)));
  CHECK(near(pv, v - n * off, e), "projected vector ", str(pv), ", should be ", str(v - n * off));
  // coordinate functions
  for (int a = 0; a < 3; ++a) {
    const vec<T, 2> rest = a == 0 ? vec<T, 2>{T(p.y), T(p.z)} : a == 1 ? vec<T, 2>{T(p.x), T(p.z)} : vec<T, 2>{T(p.x), T(p.y)};
    const T g = pl.at(rest, vm::axis::type(a)), g2 = a == 0 ? pl.xAt(rest) : a == 1 ? pl.yAt(rest) : pl.zAt(rest);
    CHECK(mc::same(g, g2), "at and xAt/yAt/zAt differ");
    if (std::fabs(n[a]) < 1e-12L) CHECK(g == T(0), "at() for an axis in the plane is ", g);
    else {
      V3 x = p;
      x[a] = g;
      CHECK(std::fabs(dot(n, x) - d) <= e * 2, "the point completed by at(), ", str(x), ", is not on the plane");
    }
  }
  // construction from an anchor
  const plane<T, 3> pa(tv<T>(base), tv<T>(n));
  CHECK(std::fabs(pa.distance - d) <= e && pa.normal == (tv<T>(n)), "plane from an anchor point has distance ", pa.distance);
  c.op(16);
  c.state(tv<T>(n), T(d), tv<T>(p));
}
MC_INSTANCE("classify_d", (classify<double>))
MC_INSTANCE("classify_f", (classify<float>))

// projection along a direction
template <class T> void oblique(Ctx& c) {
  static const std::vector<R> DI{0, 5.1L, -64.3L};
  static const std::vector<R> A{0, 1, -9.3L};
  const V3 n = dir(c, c.tiered(1, 2));
  if (c.is_skipped()) return;
  const V3 dd = dir(c, 2);
  if (c.is_skipped()) return;
  const R k = c.pick(std::vector<R>{1, 2, 0.5L});
  const V3 v = dd * k; // the direction need not be a unit vector
  const R d = c.pick(DI);
  const V3 p = pt(c, A);
  const R cs = dot(n, v);
  const plane<T, 3> pl(T(d), tv<T>(n));
  NOTE("plane ", str(n), " ", d, " point ", str(p), " direction ", str(v));
  const auto q = pl.project_point(tv<T>(p), tv<T>(v));
  const auto pv = pl.project_vector(tv<T>(p), tv<T>(v));
  if (std::fabs(cs) < 1e-6L) {
    CHECK(std::isnan(q[0]) && std::isnan(q[1]) && std::isnan(q[2]), "projection along the plane is ", q);
  } else {
    const R e = rtol<T>() * 1000 / std::fabs(cs);
    const R t = (d - dot(n, p)) / cs, tv_ = -dot(n, p) / cs;
    CHECK(near(from(q), p + v * t, e), "projection is ", q, ", should be ", str(p + v * t));
    CHECK(near(from(pv), p + v * tv_, e), "projected vector is ", pv, ", should be ", str(p + v * tv_));
  }
  c.op(2);
  c.state(tv<T>(n), tv<T>(v), T(d), tv<T>(p));
}
MC_INSTANCE("oblique_d", (oblique<double>))
MC_INSTANCE("oblique_f", (oblique<float>))

// angle preserving transformation of plane and point together
template <class T> void moved(Ctx& c) {
  static const std::vector<R> DI{0, 5.1L, -17.3L};
  static const std::vector<R> OFF{0, 1.1L, -8.3L};
  static const std::vector<R> SC{1, 2, 0.6L};
  const V3 n = dir(c, c.tiered(1, 2));
  if (c.is_skipped()) return;
  const R d = c.pick(DI), off = c.pick(OFF);
  const V3 ax = dir(c, 1);
  if (c.is_skipped()) return;
  const int an = c.range(0, 11);
  const R sc = c.pick(SC);
  const bool mirror = c.flag();
  const int ti = c.range(0, 1);
  const V3 tr = V3{3, -20, 7} * ti;
  const auto map = [&](V3 x) {
    if (mirror) x.x = -x.x;
    return rotate(x, ax, an * PI / 6) * sc + tr;
  };
  auto m = mat<T, 4, 4>::identity();
  const V3 cx = map({1, 0, 0}) - tr, cy = map({0, 1, 0}) - tr, cz = map({0, 0, 1}) - tr;
  for (int i = 0; i < 3; ++i) m[0][i] = T(cx[i]), m[1][i] = T(cy[i]), m[2][i] = T(cz[i]), m[3][i] = T(tr[i]);
  const plane<T, 3> pl(T(d), tv<T>(n));
  const auto p1 = pl.transform(m), p2 = pl.transform_c(m);
  const R e = rtol<T>() * 400;
  NOTE("plane ", str(n), " ", d, " axis ", str(ax), " angle ", an * 30, " scale ", sc, " mirror ", mirror, " translation ", str(tr));
  for (const auto& q : {p1, p2}) {
    CHECK(std::fabs(len(from(q.normal)) - 1) <= e, "normal is no unit vector");
    const V3 s = perp(n), t = cross(n, s);
    for (int k = 0; k < 3; ++k) {
      const V3 p = n * (d + off) + s * (k * 5) - t * (k * 3);
      const V3 mp = map(p);
      const R dd = dot(from(q.normal), mp) - q.distance;
      CHECK(std::fabs(dd - off * sc) <= e * (1 + sc), "the transformed point is at ", dd, " from the transformed plane, should be ", off * sc);
    }
  }
  c.op(2);
  c.state(tv<T>(n), T(d), T(off), tv<T>(ax), an, T(sc), mirror, ti);
}
MC_INSTANCE("moved_d", (moved<double>))
MC_INSTANCE("moved_f", (moved<float>))

// equality, conversion, special planes
template <class T, class U> void equality(Ctx& c) {
  static const std::vector<T> D{T(0), T(0.125), T(-0.25), T(0.5), T(-1)};
  static const std::vector<T> E{T(0), T(0.125), T(0.25), T(1)};
  const plane<T, 3> a(T(16), vec<T, 3>{T(0), T(0), T(1)});
  vec<T, 3> n = a.normal;
  T d = a.distance;
  const int k = c.range(0, 3), k2 = c.range(0, 3);
  const T x = c.pick(D), x2 = c.pick(D), e = c.pick(E);
  (k < 3 ? n[k] : d) += x;
  (k2 < 3 ? n[k2] : d) += x2;
  const plane<T, 3> b(d, n);
  bool same = d == a.distance, near = std::fabs(d - a.distance) <= e;
  for (int i = 0; i < 3; ++i) same = same && n[i] == a.normal[i], near = near && std::fabs(n[i] - a.normal[i]) <= e;
  NOTE("other ", n, " ", d, " epsilon ", e);
  CHECK((a == b) == same && (a != b) == !same && (b == a) == same, "equality");
  CHECK(vm::is_equal(a, b, e) == near && vm::is_equal(b, a, e) == near, "is_equal is ", vm::is_equal(a, b, e));
  const plane<U, 3> u(b);
  CHECK(u.distance == U(d) && u.normal[0] == U(n[0]) && u.normal[1] == U(n[1]) && u.normal[2] == U(n[2]), "conversion");
  const plane<T, 3> def;
  CHECK(def.distance == T(0) && def.normal == (vec<T, 3>::zero()), "default construction");
  c.op(6);
  c.state(n, d, e);
}
MC_INSTANCE("equality_d", (equality<double, float>))
MC_INSTANCE("equality_f", (equality<float, double>))

template <class T> void special(Ctx& c) {
  static const std::vector<R> A{0, 1, -9.3L};
  static const std::vector<R> K{1, 0.3L, 64.7L};
  const V3 p = pt(c, A);
  const V3 d0{R(c.range(-3, 3)), R(c.range(-3, 3)), R(c.range(-3, 3))};
  if (len(d0) == 0) return c.skip();
  const V3 d = d0 * c.pick(K);
  const auto h = vm::horizontal_plane(tv<T>(p)), o = vm::orthogonal_plane(tv<T>(p), tv<T>(d)), a = vm::aligned_orthogonal_plane(tv<T>(p), tv<T>(d));
  const R e = rtol<T>() * 100;
  NOTE("position ", str(p), " direction ", str(d));
  CHECK(near(from(h.normal), {0, 0, 1}, 0) && std::fabs(h.distance - p.z) <= e, "horizontal plane");
  CHECK(near(from(o.normal), unit(d), e) && std::fabs(o.distance - dot(unit(d), p)) <= e, "orthogonal plane ", o.normal, " ", o.distance);
  int m = -1;
  for (int i = 0; i < 3; ++i)
    if (std::fabs(a.normal[i]) == 1 && a.normal[(i + 1) % 3] == 0 && a.normal[(i + 2) % 3] == 0) m = i;
  CHECK(m >= 0, "normal of the aligned plane is ", a.normal);
  for (int i = 0; i < 3; ++i) CHECK(std::fabs(d[m]) >= std::fabs(d[i]), "the normal of the aligned plane is not the major axis of ", str(d));
  CHECK(a.normal[m] * d[m] > 0, "the normal of the aligned plane points away from ", str(d));
  CHECK(std::fabs(a.distance - a.normal[m] * p[m]) <= e, "distance of the aligned plane ", a.distance);
  c.op(3);
  c.state(tv<T>(p), tv<T>(d));
}
MC_INSTANCE("special_d", (special<double>))
MC_INSTANCE("special_f", (special<float>))

// --- finer alphabets ----------------------------------------------------------------------------------
// offsets close to the tolerance of point_status, at many distances and directions
template <class T> void fine_status(Ctx& c) {
  static const std::vector<R> DI{0, 1, -1, 0.3L, -7.1L, 100.3L, -1000.7L, 16384.3L, -1000000.1L};
  static const std::vector<R> EPS{1e-4L, 0.01L, 0.05L, 2, 50};
  static const std::vector<R> F{0, 0.2L, 0.5L, 0.8L, 1.25L, 2, 5, 40, 1000};
  const V3 n = dir(c, 3);
  if (c.is_skipped()) return;
  const R d = c.pick(DI), eps = c.pick(EPS), f = c.pick(F), off = (c.flag() ? -1 : 1) * f * eps;
  const R noise = (sizeof(T) == 4 ? 3e-7L : 1e-15L) * 8 * (std::fabs(d) + std::fabs(off) + 8);
  if (std::fabs(std::fabs(off) - eps) <= noise) return c.skip();
  const plane<T, 3> pl(T(d), tv<T>(n));
  const V3 s = perp(n), t = cross(n, s);
  const int k = c.range(0, 4);
  const V3 base = n * d + s * (k == 1 ? 5 : k == 2 ? -5 : 0) + t * (k == 3 ? 3 : k == 4 ? -3 : 0), p = base + n * off;
  const auto want = off > eps ? vm::plane_status::above : off < -eps ? vm::plane_status::below : vm::plane_status::inside;
  NOTE("plane ", str(n), " ", d, " offset ", off, " epsilon ", eps);
  CHECK(std::fabs(pl.point_distance(tv<T>(p)) - off) <= noise, "distance ", pl.point_distance(tv<T>(p)), ", should be ", off);
  CHECK(pl.point_status(tv<T>(p), T(eps)) == want, "status with epsilon ", eps);
  if (eps == 1e-4L) CHECK(pl.point_status(tv<T>(p)) == want, "status with the default epsilon");
  CHECK(near(from(pl.project_point(tv<T>(p))), base, noise * 2), "projection ", pl.project_point(tv<T>(p)), ", should be ", str(base));
  c.op(4);
  c.state(tv<T>(n), T(d), tv<T>(p), T(eps));
}
MC_INSTANCE("fine_status_d", (fine_status<double>))
MC_INSTANCE("fine_status_f", (fine_status<float>))

// statuses at exactly the tolerance: planes of the axes, dyadic numbers, so that nothing is rounded
template <class T> void exact_status(Ctx& c) {
  static const std::vector<T> DI{T(0), T(4), T(-2.5), T(64)}, E{T(0), T(0.125), T(1), T(0.0078125)}, K{T(0), T(0.5), T(1), T(1.5)};
  const int a = c.range(0, 2);
  const T sg = c.flag() ? T(-1) : T(1), d = c.pick(DI), e = c.pick(E);
  T off = c.pick(K) * e;
  if (e == T(0)) off = c.flag() ? T(0.25) : T(0);
  off *= c.flag() ? T(-1) : T(1);
  vec<T, 3> n = vec<T, 3>::zero(), p{T(3), T(-5), T(9)};
  n[a] = sg;
  p[a] = sg * (d + off);
  const plane<T, 3> pl(d, n);
  const auto want = off > e ? vm::plane_status::above : off < -e ? vm::plane_status::below : vm::plane_status::inside;
  NOTE("normal ", n, " distance ", d, " point ", p, " epsilon ", e);
  CHECK(pl.point_distance(p) == off, "distance ", pl.point_distance(p));
  CHECK(pl.point_status(p, e) == want, "status");
  c.op(2);
  c.state(n, d, p, e);
}
MC_INSTANCE("exact_status_d", (exact_status<double>))
MC_INSTANCE("exact_status_f", (exact_status<float>))

// coordinate functions and projections of planes with small and with large components
template <class T> void steep(Ctx& c) {
  static const std::vector<R> A{0, 1, -1, 0.02L, -0.1L, 7, 4e-4L, -1e-7L};
  static const std::vector<R> P{0, 2.1L, -30.3L};
  static const std::vector<R> DI{0, -5.1L, 64.3L};
  const V3 n0 = pt(c, A);
  if (len(n0) == 0) return c.skip();
  const V3 n = unit(n0), p = pt(c, P);
  const R d = c.pick(DI);
  const plane<T, 3> pl(T(d), tv<T>(n));
  const vec<T, 3> nt = tv<T>(n);
  NOTE("plane ", str(n), " ", d, " point ", str(p));
  for (int a = 0; a < 3; ++a) {
    const vec<T, 2> rest = a == 0 ? vec<T, 2>{T(p.y), T(p.z)} : a == 1 ? vec<T, 2>{T(p.x), T(p.z)} : vec<T, 2>{T(p.x), T(p.y)};
    const T g = pl.at(rest, vm::axis::type(a)), g2 = a == 0 ? pl.xAt(rest) : a == 1 ? pl.yAt(rest) : pl.zAt(rest);
    CHECK(mc::same(g, g2), "at and xAt/yAt/zAt differ");
    if (n[a] == 0) CHECK(g == T(0), "at() for an axis in the plane is ", g);
    else {
      R want = d;
      for (int b = 0; b < 3; ++b)
        if (b != a) want -= R(nt[b]) * p[b];
      want /= nt[a];
      CHECK(std::fabs(g - want) <= (sizeof(T) == 4 ? 1e-6L : 2e-15L) * 100 / std::fabs(n[a]), "at() for axis ", a, " is ", g, ", should be ", want);
    }
  }
  const V3 v = p * 0.25L - V3{1, 1, 1};
  const V3 pv = from(pl.project_vector(tv<T>(v)));
  CHECK(near(pv, v - n * dot(v, n), rtol<T>() * 100), "projected vector ", str(pv));
  CHECK(std::fabs(dot(pv, n)) <= rtol<T>() * 100, "the projected vector leaves the plane");
  c.op(7);
  c.state(nt, tv<T>(p), T(d));
}
MC_INSTANCE("steep_d", (steep<double>))
MC_INSTANCE("steep_f", (steep<float>))

// projection along directions that are nearly in the plane, on both sides of it
template <class T> void shallow(Ctx& c) {
  static const std::vector<R> CS{0.003L, 0.01L, 0.05L, 0.2L, 0.7L, 1};
  static const std::vector<R> K{1, 0.3L, 16.1L, -1, -3.3L};
  static const std::vector<R> OFF{0, 1, -2.1L, 10.3L};
  const V3 n = dir(c, c.tiered(1, 2));
  if (c.is_skipped()) return;
  const R cs = c.pick(CS);
  const R w = R(c.range(0, 7)) * PI / 4;
  const V3 s = perp(n), t = cross(n, s);
  const V3 v = (n * cs + (s * std::cos(w) + t * std::sin(w)) * std::sqrt(1 - cs * cs)) * c.pick(K);
  if (std::fabs(dot(n, v)) < 0.0015L) return c.skip(); // counts as parallel to the plane below 0.001
  const R d = c.flag() ? -3 : 20, off = c.pick(OFF);
  const V3 p = n * (d + off) + s * 2 - t;
  const plane<T, 3> pl(T(d), tv<T>(n));
  const R q = -off / dot(n, v), qv = -dot(n, p) / dot(n, v);
  const R e = rtol<T>() * 300 / cs;
  NOTE("plane ", str(n), " ", d, " point ", str(p), " direction ", str(v));
  CHECK(near(from(pl.project_point(tv<T>(p), tv<T>(v))), p + v * q, e * (1 + len(v * q))), "projection is ", pl.project_point(tv<T>(p), tv<T>(v)), ", should be ", str(p + v * q));
  CHECK(near(from(pl.project_vector(tv<T>(p), tv<T>(v))), p + v * qv, e * (1 + len(v * qv))), "projected vector is ", pl.project_vector(tv<T>(p), tv<T>(v)), ", should be ", str(p + v * qv));
  c.op(2);
  c.state(tv<T>(n), tv<T>(v), T(d), tv<T>(p));
}
MC_INSTANCE("shallow_d", (shallow<double>))
MC_INSTANCE("shallow_f", (shallow<float>))

// triples of points of every shape: scales, slivers, obtuse triangles, far from the origin
template <class T> void triples(Ctx& c) {
  static const std::vector<R> L{1, 0.1L, 10, 100, 1e-3L, 1e-6L, 1e5L};
  static const std::vector<R> X{0, 0.6L, 1, -1, 3.3L, -20.7L};
  static const std::vector<R> Y{1, -1, 0.05L, -0.05L, 15};
  static const std::vector<R> SH{0, 50.1L, -200.3L};
  const V3 n = dir(c, c.tiered(1, 2));
  if (c.is_skipped()) return;
  const R l = c.pick(L), sh = c.pick(SH);
  if (l < (sizeof(T) == 4 ? 1 : 0.01L) && sh != 0) return c.skip();
  const R w = R(c.range(0, 5)) * PI / 3;
  const V3 s0 = perp(n), t0 = cross(n, s0);
  const V3 s = s0 * std::cos(w) + t0 * std::sin(w), t = cross(n, s);
  const R x = c.pick(X), y = c.pick(Y);
  const V3 o{sh, sh / 4, -sh};
  const V3 p1 = o, p2 = o + s * l, p3 = o + (s * x + t * y) * l;
  const vec<T, 3> a = tv<T>(p1), b = tv<T>(p2), d = tv<T>(p3);
  const V3 want = unit(cross(from(d) - from(a), from(b) - from(a)));
  // rounding of the differences and of the area
  const R cond = (len(p2 - p1) * len(p3 - p1) + std::fabs(sh)) / len(cross(p3 - p1, p2 - p1));
  const R e = (sizeof(T) == 4 ? 1e-6L : 1e-15L) * 8 * (1 + cond);
  NOTE("points ", str(p1), str(p2), str(p3));
  const auto [valid, pl] = vm::from_points(a, b, d);
  const auto [nv, nn] = vm::plane_normal(a, b, d);
  CHECK(valid && nv, "the points span a plane");
  CHECK(near(from(pl.normal), want, e) && near(from(nn), want, e), "normal ", pl.normal, " and ", nn, ", should be ", str(want));
  CHECK(std::fabs(pl.distance - dot(want, p1)) <= e * (1 + len(p1) + len(p2) + len(p3)), "distance ", pl.distance, ", should be ", dot(want, p1));
  const auto [rv, rp] = vm::from_points(a, d, b);
  CHECK(rv && near(from(rp.normal), want * -1, e), "the points in reverse order give ", rp.normal);
  c.op(3);
  c.state(a, b, d);
}
MC_INSTANCE("triples_d", (triples<double>))
MC_INSTANCE("triples_f", (triples<float>))

// transformations: every combination of a finer angle, scale and translation
template <class T> void moved_fine(Ctx& c) {
  static const std::vector<R> DI{0, 1, -30.1L};
  static const std::vector<R> SC{1, 0.1L, 3.3L, 25.7L};
  static const std::vector<R> TR{0, 1, -300.3L};
  static const std::vector<V3> AX{{0, 0, 1}, {1, 0, 0}, {1, 2, 3}, {-3, 1, 0.5L}};
  const V3 n = dir(c, 1);
  if (c.is_skipped()) return;
  const R d = c.pick(DI), sc = c.pick(SC);
  const V3 ax = unit(c.pick(AX)), tr = pt(c, TR);
  const int an = c.range(0, c.tiered(7, 15));
  const R ang = an * PI / c.tiered(4, 8) + (an % 2 ? 0.1L : 0);
  const int mirror = c.range(0, 3);
  const auto map = [&](V3 x) {
    if (mirror) x[mirror - 1] = -x[mirror - 1];
    return rotate(x, ax, ang) * sc + tr;
  };
  auto m = mat<T, 4, 4>::identity();
  const V3 cx = map({1, 0, 0}) - tr, cy = map({0, 1, 0}) - tr, cz = map({0, 0, 1}) - tr;
  for (int i = 0; i < 3; ++i) m[0][i] = T(cx[i]), m[1][i] = T(cy[i]), m[2][i] = T(cz[i]), m[3][i] = T(tr[i]);
  const plane<T, 3> pl(T(d), tv<T>(n));
  const V3 wn = (map(n) - tr) / sc;
  const R wd = dot(wn, map(n * d));
  const R e = rtol<T>() * 10;
  NOTE("plane ", str(n), " ", d, " axis ", str(ax), " angle ", ang, " scale ", sc, " mirror ", mirror, " translation ", str(tr));
  for (const auto& q : {pl.transform(m), pl.transform_c(m)}) {
    CHECK(near(from(q.normal), wn, e), "normal ", q.normal, ", should be ", str(wn));
    CHECK(std::fabs(q.distance - wd) <= e * (1 + len(tr) + sc * std::fabs(d)), "distance ", q.distance, ", should be ", wd);
  }
  c.op(2);
  c.state(tv<T>(n), T(d), tv<T>(ax), an, T(sc), mirror, tv<T>(tr));
}
MC_INSTANCE("moved_fine_d", (moved_fine<double>))
MC_INSTANCE("moved_fine_f", (moved_fine<float>))

// aligned planes of directions whose components nearly tie, at several magnitudes
template <class T> void special_near(Ctx& c) {
  static const std::vector<R> A{1, -1, 0.98L, -0.98L, 1.02L, -1.02L, 0.5L, 0, -5};
  static const std::vector<R> K{1, 0.01L, 300};
  static const std::vector<R> P{0, 0.3L, -70.1L};
  const V3 d = pt(c, A) * c.pick(K), p = pt(c, P);
  if (len(d) == 0) return c.skip();
  const auto o = vm::orthogonal_plane(tv<T>(p), tv<T>(d)), a = vm::aligned_orthogonal_plane(tv<T>(p), tv<T>(d));
  const R e = rtol<T>() * 20;
  NOTE("position ", str(p), " direction ", str(d));
  CHECK(near(from(o.normal), unit(d), e) && std::fabs(o.distance - dot(unit(d), p)) <= e * 10, "orthogonal plane ", o.normal, " ", o.distance);
  int m = -1;
  for (int i = 0; i < 3; ++i)
    if (std::fabs(a.normal[i]) == 1 && a.normal[(i + 1) % 3] == 0 && a.normal[(i + 2) % 3] == 0) m = i;
  CHECK(m >= 0, "normal of the aligned plane is ", a.normal);
  for (int i = 0; i < 3; ++i) CHECK(std::fabs(d[m]) >= std::fabs(d[i]), "the normal of the aligned plane is not the major axis of ", str(d));
  CHECK(a.normal[m] * d[m] > 0, "the normal of the aligned plane points away from ", str(d));
  CHECK(std::fabs(a.distance - a.normal[m] * p[m]) <= e * 10, "distance of the aligned plane ", a.distance);
  c.op(2);
  c.state(tv<T>(p), tv<T>(d));
}
MC_INSTANCE("special_near_d", (special_near<double>))
MC_INSTANCE("special_near_f", (special_near<float>))

// equality is exact: a difference in the last place of a single number counts, and so does every multiple of it
template <class T> void last_place(Ctx& c) {
  static const std::vector<T> A{T(0), T(1), T(-1), T(0.6), T(-0.8), T(1e-6), T(4096)};
  vec<T, 3> n{c.pick(A), c.pick(A), c.pick(A)};
  T d = c.pick(A);
  const plane<T, 3> a(d, n);
  const uint32_t k = c.choose(5);
  const T to = c.flag() ? T(1e9) : T(-1e9);
  const int steps = c.pick(std::vector<int>{1, 2, 1000});
  if (k < 4) {
    T& x = k < 3 ? n[k] : d;
    for (int i = 0; i < steps; ++i) x = std::nextafter(x, to);
  }
  const plane<T, 3> b(d, n);
  NOTE("plane ", a.normal, " ", a.distance, " changed in number ", k);
  const bool same = k == 4;
  CHECK((a == b) == same && (b == a) == same && (a != b) == !same && (b != a) == !same, "equality");
  CHECK(vm::is_equal(a, b, T(0)) == same, "comparison with a tolerance of 0");
  c.op(5);
  c.state(n, d, k);
}
MC_INSTANCE("last_place_d", (last_place<double>))
MC_INSTANCE("last_place_f", (last_place<float>))

// --- skewed planes: components in every order of size and with every sign -----------------------------------------
template <class T> void skewed(Ctx& c) {
  static const std::vector<V3> O{{0, 0, 0}, {7.3L, -5.1L, 2.9L}, {-41.7L, 11.9L, 83.3L}};
  static const std::vector<std::array<R, 6>> TRI{{0, 0, 1, 0, 0, 1}, {0, 0, 0, 1, 1, 0}, {2, -1, -3, 0.5L, 1, 4}, {-1.5L, 2, 0.3L, -0.7L, 6, 1.1L}, {0, 0, 20, 1, 19, 3}};
  const Frame& f = c.pick(frames());
  const V3 o = c.pick(O), s = f({1, 0, 0}), t = f({0, 1, 0}), n = f({0, 0, 1});
  const int kind = c.choose(2);
  const R e = rtol<T>() * 400;
  if (kind == 0) {
    const auto& q = c.pick(TRI);
    const V3 p1 = o + s * q[0] + t * q[1], p2 = o + s * q[2] + t * q[3], p3 = o + s * q[4] + t * q[5];
    const V3 w = unit(cross(p3 - p1, p2 - p1));
    NOTE("points ", str(p1), str(p2), str(p3));
    const auto [valid, pl] = vm::from_points(tv<T>(p1), tv<T>(p2), tv<T>(p3));
    const auto [nvalid, normal] = vm::plane_normal(tv<T>(p1), tv<T>(p2), tv<T>(p3));
    CHECK(valid && nvalid, "the plane is refused");
    CHECK(near(from(pl.normal), w, e * 2) && near(from(normal), w, e * 2), "normal ", pl.normal, " and ", normal, ", should be ", str(w));
    CHECK(std::fabs(pl.distance - dot(w, o)) <= e * (2 + len(o)), "distance ", pl.distance, ", should be ", dot(w, o));
    c.op(2);
    c.state(tv<T>(p1), tv<T>(p2), tv<T>(p3));
  } else {
    static const std::vector<R> OFF{0, 0.7L, -3.1L, 29.3L};
    const Frame& g = frames()[(c.choose(8) * 11 + 5) % 48]; // also the map
    const R d = dot(n, o), off = c.pick(OFF), sc = c.pick(std::vector<R>{1, 0.7L, 3});
    const V3 base = o + s * 3.3L - t * 1.9L, p = base + n * off, dn = unit(n + s * 0.6L - t * 1.1L);
    const plane<T, 3> pl(T(d), tv<T>(n));
    NOTE("plane ", str(n), " ", d, " point ", str(p));
    CHECK(std::fabs(pl.point_distance(tv<T>(p)) - off) <= e * 4, "distance ", pl.point_distance(tv<T>(p)), ", should be ", off);
    CHECK(pl.point_status(tv<T>(p)) == (off > 0 ? vm::plane_status::above : off < 0 ? vm::plane_status::below : vm::plane_status::inside) || (sizeof(T) == 4 && off == 0), "point status at ", off);
    CHECK(near(from(pl.project_point(tv<T>(p))), base, e * 8), "projection ", pl.project_point(tv<T>(p)), ", should be ", str(base));
    const V3 ob = p - dn * (off / dot(dn, n)), v = s * 5 + t * 2 + n * off;
    CHECK(near(from(pl.project_point(tv<T>(p), tv<T>(dn))), ob, e * 20), "projection along ", str(dn), " ", pl.project_point(tv<T>(p), tv<T>(dn)), ", should be ", str(ob));
    CHECK(near(from(pl.project_vector(tv<T>(v))), v - n * off, e * 8), "projected vector ", pl.project_vector(tv<T>(v)));
    CHECK(near(from(pl.project_vector(tv<T>(v), tv<T>(dn))), v - dn * (off / dot(dn, n)), e * 20), "vector projected along ", str(dn), " ", pl.project_vector(tv<T>(v), tv<T>(dn)));
    CHECK(near(from(pl.anchor()), n * d, e * 4), "anchor ", pl.anchor());
    for (int a = 0; a < 3; ++a) {
      const vec<T, 2> rest = a == 0 ? vec<T, 2>{T(p.y), T(p.z)} : a == 1 ? vec<T, 2>{T(p.x), T(p.z)} : vec<T, 2>{T(p.x), T(p.y)};
      const R want = p[a] - off / n[a];
      CHECK(std::fabs(pl.at(rest, vm::axis::type(a)) - want) <= e * 4 / std::fabs(n[a]), "at() for axis ", a, " is ", pl.at(rest, vm::axis::type(a)), ", should be ", want);
    }
    const plane<T, 3> pa(tv<T>(base), tv<T>(n));
    CHECK(std::fabs(pa.distance - d) <= e * 4, "plane from an anchor point has distance ", pa.distance);
    auto m = mat<T, 4, 4>::identity();
    const V3 tr = V3{3.1L, -20.7L, 7.9L}, cx = g({sc, 0, 0}), cy = g({0, sc, 0}), cz = g({0, 0, sc});
    for (int i = 0; i < 3; ++i) m[0][i] = T(cx[i]), m[1][i] = T(cy[i]), m[2][i] = T(cz[i]), m[3][i] = T(tr[i]);
    for (const auto& q : {pl.transform(m), pl.transform_c(m)}) {
      CHECK(near(from(q.normal), g(n), e), "transformed normal ", q.normal, ", should be ", str(g(n)));
      const R want = dot(g(n), g(base) * sc + tr);
      CHECK(std::fabs(q.distance - want) <= e * (4 + 4 * sc), "transformed distance ", q.distance, ", should be ", want);
    }
    c.op(12);
    c.state(tv<T>(n), T(d), tv<T>(p), m[0], m[1], m[2]);
  }
}
MC_INSTANCE("skewed_d", (skewed<double>))
MC_INSTANCE("skewed_f", (skewed<float>))
