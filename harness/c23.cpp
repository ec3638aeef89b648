// C23  line-plane and plane-plane intersections and point-in-polygon are exact
// mc-flags: -O2 ubsan
// mc-assume: plane normals and line directions are unit vectors; pairs are either parallel up to rounding or at least 0.5 degrees off; polygons are simple and the point lies in their plane; the overload that takes no normal needs non-colinear first three vertices
#include "mc.hpp"
#include "ref.hpp"
#include <list>
#include <vecmath/intersection.h>
#include <vecmath/line.h>
#include <vecmath/plane.h>
using mc::Ctx;
using vm::line;
using vm::plane;
using vm::vec;
using namespace ref;

template <class T> constexpr R rtol() { return sizeof(T) == 4 ? 1e-4L : 1e-10L; }
template <class T> vec<T, 3> tv(V3 p) { return vec<T, 3>{T(p.x), T(p.y), T(p.z)}; }
static V3 dir(Ctx& c, int b) {
  const V3 d{R(c.range(-b, b)), R(c.range(-b, b)), R(c.range(-b, b))};
  if (len(d) == 0) {
    c.skip();
    return d;
  }
  return unit(d);
}
static const std::vector<R> DI{0, 5.1L, -17.3L, 200.7L};
static const std::vector<V3> ANCHOR{{0, 0, 0}, {1.1L, -2.3L, 3.7L}, {-40.1L, 7.3L, 0.6L}, {100, 300, -250}};
// nearly parallel second directions, made from the first one
static V3 second(Ctx& c, const V3& n, int b) {
  static const std::vector<R> SMALL{0.01L, 0.05L, -0.3L};
  if (c.flag()) return dir(c, b);
  const V3 s = perp(n), t = cross(n, s);
  const R e = c.pick(SMALL);
  const int a = c.range(0, 3);
  const V3 m = unit(n + (a == 0 ? s : a == 1 ? t : a == 2 ? s - t : s + t * 0.3L) * e);
  return c.flag() ? m : -m;
}
// --- lines and planes ---------------------------------------------------------------------------
template <class T> void line_plane(Ctx& c) {
  const V3 n = dir(c, c.tiered(1, 2));
  if (c.is_skipped()) return;
  V3 v;
  if (c.flag()) {
    v = dir(c, 2);
    if (c.is_skipped()) return;
  } else { // nearly parallel to the plane
    const V3 s = perp(n), t = cross(n, s);
    v = unit(s * R(c.range(-1, 1)) + t + n * (c.flag() ? 0.02L : -0.1L));
  }
  const R d = c.pick(DI);
  const V3 o = c.pick(ANCHOR);
  const R f = dot(n, v);
  NOTE("line ", str(o), str(v), " plane ", str(n), " ", d);
  const line<T, 3> l(tv<T>(o), tv<T>(v));
  const plane<T, 3> p(T(d), tv<T>(n));
  const T g = vm::intersect_line_plane(l, p);
  if (std::fabs(f) < 1e-6L) CHECK(std::isnan(g), "a parallel line meets the plane at ", g);
  else {
    const R want = (d - dot(n, o)) / f;
    CHECK(std::fabs(g - want) <= rtol<T>() * 10 * (1 + std::fabs(want)) / std::fabs(f) + rtol<T>() * 500 / std::fabs(f), "the line meets the plane at ", g, ", should be ", want);
    const R off = dot(from(vm::point_at_distance(l, g)), n) - d;
    CHECK(std::fabs(off) <= rtol<T>() * 1000 / std::fabs(f), "the common point is off the plane by ", off);
  }
  c.op(2);
  c.state(tv<T>(n), tv<T>(v), T(d), tv<T>(o));
}
MC_INSTANCE("line_plane_d", (line_plane<double>))
MC_INSTANCE("line_plane_f", (line_plane<float>))

template <class T> void plane_plane(Ctx& c) {
  const V3 n = dir(c, c.tiered(1, 2));
  if (c.is_skipped()) return;
  const V3 m = second(c, n, 2);
  if (c.is_skipped()) return;
  const R d = c.pick(DI), e = c.pick(DI);
  const V3 x = cross(n, m);
  const R s = len(x);
  NOTE("planes ", str(n), " ", d, " and ", str(m), " ", e);
  const plane<T, 3> p(T(d), tv<T>(n)), q(T(e), tv<T>(m));
  const line<T, 3> l = vm::intersect_plane_plane(p, q);
  if (s < 1e-6L) CHECK(l.point == (vec<T, 3>{}) && l.direction == (vec<T, 3>{}), "parallel planes meet in ", l.point, l.direction);
  else {
    const V3 u = from(l.direction);
    CHECK(std::fabs(len(u) - 1) <= rtol<T>(), "direction ", l.direction, " is not a unit vector");
    CHECK(std::fabs(dot(u, n)) <= rtol<T>() / s && std::fabs(dot(u, m)) <= rtol<T>() / s, "direction ", l.direction, " is not parallel to both planes");
    const R t = rtol<T>() * (1000 + len(from(l.point))) / s;
    for (R k : {0.0L, 10.0L, -10.0L}) {
      const V3 a = from(l.point) + u * k;
      CHECK(std::fabs(dot(a, n) - d) <= t && std::fabs(dot(a, m) - e) <= t, "point ", str(a), " of the line is off the planes by ", dot(a, n) - d, " and ", dot(a, m) - e);
    }
    // the same line, whatever the order
    const line<T, 3> r = vm::intersect_plane_plane(q, p);
    CHECK(len(cross(from(r.direction), u)) <= rtol<T>() / s && len(cross(from(r.point) - from(l.point), u)) <= 4 * t / s, "swapped planes meet in ", r.point, r.direction, " instead of ", l.point, l.direction);
    c.op();
  }
  c.op(2);
  c.state(tv<T>(n), tv<T>(m), T(d), T(e));
}
MC_INSTANCE("plane_plane_d", (plane_plane<double>))
MC_INSTANCE("plane_plane_f", (plane_plane<float>))

// --- polygons -----------------------------------------------------------------------------------
struct I2 {
  int x, y;
};
static long orient(I2 a, I2 b, I2 p) { return long(b.x - a.x) * (p.y - a.y) - long(p.x - a.x) * (b.y - a.y); }
static bool on(I2 a, I2 b, I2 p) { return orient(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
static bool touch(I2 a, I2 b, I2 p, I2 q) {
  if (on(a, b, p) || on(a, b, q) || on(p, q, a) || on(p, q, b)) return true;
  return ((orient(a, b, p) > 0) != (orient(a, b, q) > 0)) && ((orient(p, q, a) > 0) != (orient(p, q, b) > 0)) && orient(a, b, p) != 0 && orient(p, q, a) != 0;
}
// exact: 1 inside, 0 on the boundary, -1 outside
static int where(const std::vector<I2>& v, I2 p) {
  bool in = false;
  for (std::size_t i = 0; i < v.size(); ++i) {
    const I2 a = v[i], b = v[(i + 1) % v.size()];
    if (on(a, b, p)) return 0;
    if ((a.y > p.y) != (b.y > p.y) && (orient(a, b, p) > 0) == (b.y > a.y)) in = !in;
  }
  return in ? 1 : -1;
}
struct Basis {
  int o[3], s[3], t[3];
};
static const std::vector<Basis> BASES{
  {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}},
  {{3, -5, 7}, {0, 1, 0}, {0, 0, 1}},
  {{-1, 2, 0}, {0, 0, 1}, {1, 0, 0}},
  {{0, 0, 4}, {0, 1, 0}, {1, 0, 0}},
  {{1, 1, 1}, {1, -1, 0}, {0, 1, -1}},   // normal (1 1 1)
  {{0, 0, 0}, {2, 0, -1}, {0, 3, -2}},   // (3 4 6)
  {{-100, 200, 50}, {1, 2, 0}, {0, 1, 3}}, // (6 -3 1)
  {{5, 0, 0}, {1, 0, 2}, {1, 4, 0}},     // (-8 2 4)
  {{0, 0, 0}, {1, 1, 0}, {0, 0, 1}},     // (1 -1 0)
};
// a simple polygon on a w x h lattice, built vertex by vertex
static std::vector<I2> build(Ctx& c, int w, int h, int maxn) {
  std::vector<I2> v;
  const int n = c.range(3, maxn);
  unsigned used = 0;
  for (int k = 0; k < n; ++k) {
    int i = c.range(0, w * h - 1);
    if (used >> i & 1) {
      c.skip();
      return v;
    }
    used |= 1u << i;
    const I2 p{i % w, i / w};
    const std::size_t m = v.size();
    // the new edge v[m-1] p may touch the previous edge only in v[m-1]
    if (m >= 2 && (on(v[m - 2], v[m - 1], p) || on(v[m - 1], p, v[m - 2]))) {
      c.skip();
      return v;
    }
    for (std::size_t j = 0; j + 2 < m; ++j)
      if (touch(v[j], v[j + 1], v[m - 1], p)) {
        c.skip();
        return v;
      }
    v.push_back(p);
  }
  const std::size_t m = v.size();
  bool bad = on(v[m - 1], v[0], v[1]) || on(v[0], v[1], v[m - 1]) || on(v[m - 2], v[m - 1], v[0]) || on(v[m - 1], v[0], v[m - 2]);
  for (std::size_t j = 1; j + 2 < m; ++j) bad = bad || touch(v[j], v[j + 1], v[m - 1], v[0]);
  if (bad) c.skip();
  return v;
}
template <class T> void contains(Ctx& c, const std::vector<I2>& poly, int w, int h) {
  constexpr int D = 4; // points are tested on a lattice of 1/D
  const Basis& B = c.pick(BASES);
  const T sc = c.flag() ? T(1) : T(16);
  const auto map = [&](int x, int y, T den) {
    vec<T, 3> r;
    for (std::size_t i = 0; i < 3; ++i) r[i] = sc * (T(B.o[i]) + (T(B.s[i]) * T(x) + T(B.t[i]) * T(y)) / den);
    return r;
  };
  std::vector<vec<T, 3>> vs;
  std::vector<I2> fine;
  std::list<std::pair<int, vec<T, 3>>> l;
  for (I2 p : poly) {
    vs.push_back(map(p.x, p.y, T(1)));
    fine.push_back({p.x * D, p.y * D});
    l.push_back({1, vs.back()});
  }
  const auto get = [](const std::pair<int, vec<T, 3>>& x) -> const vec<T, 3>& { return x.second; };
  vec<T, 3> n;
  for (std::size_t i = 0; i < 3; ++i) n[i] = T(B.s[(i + 1) % 3] * B.t[(i + 2) % 3] - B.s[(i + 2) % 3] * B.t[(i + 1) % 3]);
  const bool free_normal = orient(poly[0], poly[1], poly[2]) != 0;
  const auto nn = vm::normalize(n);
  const T an[3] = {std::fabs(n[0]), std::fabs(n[1]), std::fabs(n[2])};
  const auto ax = an[0] >= an[1] && an[0] >= an[2] ? vm::axis::x : an[1] >= an[2] ? vm::axis::y : vm::axis::z;
  uint64_t hs = 0;
  for (auto& x : vs) Ctx::add(hs, x);
  for (int y = -2; y <= D * (h - 1) + 2; ++y)
    for (int x = -2; x <= D * (w - 1) + 2; ++x) {
      const int wh = where(fine, {x, y});
      const bool want = wh >= 0;
      const auto p = map(x, y, T(D));
      const char* pos = wh > 0 ? "an interior point" : wh == 0 ? "a boundary point" : "an outside point";
      CHECK(vm::polygon_contains_point(p, nn, vs.begin(), vs.end()) == want, p, " is ", pos, " of ", vs, " with normal ", nn);
      CHECK(vm::polygon_contains_point(p, -n, vs.begin(), vs.end()) == want, p, " is ", pos, " of ", vs, " with normal ", -n);
      CHECK(vm::polygon_contains_point(p, ax, l.begin(), l.end(), get) == want, p, " is ", pos, " of mapped ", vs, " with axis ", int(ax));
      if (free_normal) CHECK(vm::polygon_contains_point(p, vs.begin(), vs.end()) == want, p, " is ", pos, " of ", vs);
      c.op(free_normal ? 4 : 3);
    }
  c.state(hs, n);
}
template <class T> void polygons(Ctx& c) {
  const auto v = build(c, 3, 3, c.tiered(6, 8));
  if (c.is_skipped()) return;
  contains<T>(c, v, 3, 3);
}
MC_INSTANCE("polygons_d", (polygons<double>))
MC_INSTANCE("polygons_f", (polygons<float>))
template <class T> void polygons4(Ctx& c) {
  const auto v = build(c, 4, 3, c.tiered(4, 6));
  if (c.is_skipped()) return;
  contains<T>(c, v, 4, 3);
}
MC_INSTANCE("polygons4_d", (polygons4<double>))

// --- shallow lines and distant planes ---------------------------------------------------------------
template <class T> void line_steep(Ctx& c) {
  static const std::vector<V3> N{{0, 0, 1}, {0, -1, 0}, {1, 0, 0}, {1, 1, 1}, {2, -1, 3}, {-1, 4, -2}};
  static const std::vector<R> F{0.003L, 0.01L, 0.03L, 0.1L, 0.2L, 0.5L, 0.99L};
  static const std::vector<R> TT{0, 0.0001L, 0.02L, 0.5L, 8, 100, 5000};
  const V3 n = unit(c.pick(N)), s = perp(n), u = cross(n, s);
  const R f = c.pick(F) * (c.flag() ? 1 : -1), t = c.pick(TT) * (c.flag() ? 1 : -1);
  const R a = c.choose(4) * 1.1L;
  const V3 o = c.pick(ANCHOR);
  const V3 v = n * f + (s * std::cos(a) + u * std::sin(a)) * std::sqrt(1 - f * f);
  const R d = dot(n, o + v * t);
  NOTE("line ", str(o), str(v), " plane ", str(n), " ", d);
  const line<T, 3> l(tv<T>(o), tv<T>(v));
  const T g = vm::intersect_line_plane(l, plane<T, 3>(T(d), tv<T>(n)));
  CHECK(std::fabs(g - t) <= rtol<T>() * (16 + std::fabs(t) + len(o)) / std::fabs(f), "the line meets the plane at ", g, ", should be ", t);
  c.op();
  c.state(tv<T>(n), tv<T>(v), T(d), tv<T>(o));
}
MC_INSTANCE("line_steep_d", (line_steep<double>))
MC_INSTANCE("line_steep_f", (line_steep<float>))
// planes through a given line, at given angles
template <class T> void common_line(Ctx& c) {
  static const std::vector<V3> D{{0, 0, 1}, {0, -1, 0}, {1, 0, 0}, {1, 1, 1}, {2, -1, 3}, {-1, 4, -2}, {0.01L, 1, 0.001L}, {1, 0.02L, 1}};
  static const std::vector<V3> O{{0, 0, 0}, {1.1L, -2.3L, 0.6L}, {-64.1L, 32.3L, 16.7L}, {0.01L, 0, 0.02L}, {500.1L, -300.3L, 700.7L}};
  static const std::vector<R> AN{0, 0.02L, 0.1L, 0.785398L, 1.570796326794896619L, 2.3L, 3.1L, 4.7123889803846898577L, 5.5L};
  const V3 u = unit(c.pick(D)), o = c.pick(O), s = perp(u);
  const R a = c.pick(AN), b = c.pick(AN);
  const V3 n = rotate(s, u, a), m = rotate(s, u, b);
  const R sn = std::fabs(std::sin(a - b));
  if (sn < 0.015L) return c.skip();
  NOTE("planes ", str(n), " ", dot(n, o), " and ", str(m), " ", dot(m, o));
  const line<T, 3> l = vm::intersect_plane_plane(plane<T, 3>(T(dot(n, o)), tv<T>(n)), plane<T, 3>(T(dot(m, o)), tv<T>(m)));
  const V3 gu = from(l.direction), gp = from(l.point);
  CHECK(std::fabs(len(gu) - 1) <= rtol<T>() && len(cross(gu, u)) <= rtol<T>() / sn, "direction ", l.direction, " of the line, should be parallel to ", str(u));
  CHECK(len(cross(gp - o, u)) <= rtol<T>() * (4 + len(o) + len(gp)) / (sn * sn), "point ", l.point, " of the line is off the line by ", len(cross(gp - o, u)));
  c.op();
  c.state(tv<T>(n), tv<T>(m), tv<T>(o));
}
MC_INSTANCE("common_line_d", (common_line<double>))
MC_INSTANCE("common_line_f", (common_line<float>))

// --- polygons with many vertices ----------------------------------------------------------------------
template <class T> void polygons_many(Ctx& c) {
  const int n = c.range(7, c.tiered(12, 20)), kind = c.choose(4);
  static const std::vector<I2> DIRS{{8, 0}, {7, 2}, {5, 5}, {2, 7}, {0, 8}, {-3, 7}, {-5, 5}, {-8, 3}, {-8, 0}, {-7, -2}, {-5, -5}, {-2, -7}, {0, -8}, {3, -7}, {5, -5}, {8, -3}};
  std::vector<I2> p;
  const int w = 2 * n;
  if (kind == 0) // comb
    for (int i = 0; i < n; ++i) p.push_back(i == 0 ? I2{0, 0} : i == 1 ? I2{w, 0} : I2{w - 2 * (i - 2), i % 2 ? 1 : 4});
  if (kind == 1) // star, with vertices aligned horizontally and vertically
    for (std::size_t i = 0; i < DIRS.size() && int(i) < n; ++i) p.push_back({8 + DIRS[i].x / (i % 2 + 1), 8 + DIRS[i].y / (i % 2 + 1)});
  if (kind == 2) // convex curve: colinear triples only in the closing edge
    for (int i = 0; i < n; ++i) p.push_back({i, i * (n - i) / 2 + i});
  if (kind == 3) // stairs, with many edges along the axes
    for (int i = 0; i < n; ++i) p.push_back(i == 0 ? I2{0, 2 * n} : i == 1 ? I2{0, 0} : I2{(i - 1) / 2 * 2 + (i % 2 ? 0 : 2), (i - 2) / 2 * 2 + (i % 2 ? 2 : 0)});
  if (kind == 3) p.push_back({0, 4 * n});
  const std::size_t m = p.size();
  for (std::size_t i = 0; i < m; ++i) { // simple?
    const I2 a = p[i], b = p[(i + 1) % m];
    if (a.x == b.x && a.y == b.y) return c.skip();
    for (std::size_t j = i + 2; j < m; ++j)
      if ((j + 1) % m != i && touch(a, b, p[j], p[(j + 1) % m])) return c.skip();
    const I2 d = p[(i + 2) % m];
    if (on(a, b, d) || on(b, d, a)) return c.skip();
  }
  int mx = 0, my = 0;
  for (I2 q : p) mx = std::max(mx, q.x), my = std::max(my, q.y);
  const std::size_t rot = c.choose(uint32_t(m));
  std::vector<I2> q;
  for (std::size_t i = 0; i < m; ++i) q.push_back(p[(i + rot) % m]);
  if (c.flag()) std::reverse(q.begin(), q.end());
  const T sc = c.flag() ? T(0.0625) : T(64);
  const Basis& B = c.pick(BASES);
  vec<T, 3> nn;
  for (std::size_t i = 0; i < 3; ++i) nn[i] = T(B.s[(i + 1) % 3] * B.t[(i + 2) % 3] - B.s[(i + 2) % 3] * B.t[(i + 1) % 3]);
  std::vector<vec<T, 3>> vs;
  std::vector<I2> fine;
  const auto map = [&](int x, int y) {
    vec<T, 3> r;
    for (std::size_t i = 0; i < 3; ++i) r[i] = sc * (T(B.o[i]) + (T(B.s[i]) * T(x) + T(B.t[i]) * T(y)) / T(2));
    return r;
  };
  uint64_t hs = 0;
  for (I2 a : q) vs.push_back(map(2 * a.x, 2 * a.y)), fine.push_back({2 * a.x, 2 * a.y}), Ctx::add(hs, vs.back());
  const bool free_normal = orient(q[0], q[1], q[2]) != 0;
  for (int y = -1; y <= 2 * my + 1; y += my > 20 ? 3 : 1)
    for (int x = -1; x <= 2 * mx + 1; ++x) {
      const int wh = where(fine, {x, y});
      if (wh < 0 && sc < 1) { // the tolerance of the test is 0.001 in the projection onto a coordinate plane
        bool near_edge = false;
        const V3 pr = from(map(x, y));
        for (std::size_t i = 0; i < m; ++i) {
          const V3 a = from(vs[i]), b = from(vs[(i + 1) % m]);
          const R t = std::min<R>(1, std::max<R>(0, dot(pr - a, b - a) / dot(b - a, b - a)));
          near_edge = near_edge || len(a + (b - a) * t - pr) < 0.0021L;
        }
        if (near_edge) continue;
      }
      const auto pt = map(x, y);
      CHECK(vm::polygon_contains_point(pt, nn, vs.begin(), vs.end()) == (wh >= 0), pt, wh >= 0 ? " is in " : " is not in ", vs, " with normal ", nn);
      c.op();
      if (free_normal) {
        CHECK(vm::polygon_contains_point(pt, vs.begin(), vs.end()) == (wh >= 0), pt, wh >= 0 ? " is in " : " is not in ", vs);
        c.op();
      }
    }
  c.state(hs, nn, sc);
}
MC_INSTANCE("polygons_many_d", (polygons_many<double>))
MC_INSTANCE("polygons_many_f", (polygons_many<float>))

// --- points close to the edges and vertices of a polygon, but farther than the tolerance ---------------------------
template <class T> void near_edges(Ctx& c) {
  struct P { R x, y; };
  static const std::vector<std::vector<P>> PG{{{0, 0}, {4, 0}, {4, 3}, {0, 3}}, {{0, 0}, {4, 0}, {4, 0.5L}, {0, 1}}, {{-2, 0}, {2, 0}, {3, 2}, {0, 4}, {-3, 2}}, {{0, 0}, {2, 0}, {2, 2}, {4, 2}, {4, 4}, {0, 4}}, {{0, 0}, {6, 1}, {1, 5}}};
  static const std::vector<R> OFF{0.004L, 0.008L, 0.015L, 0.03L, 0.06L};
  const auto& pg = c.pick(PG);
  const std::size_t m = pg.size();
  const int ax = c.choose(3);
  const bool swap = c.flag(), rev = c.flag();
  const R sx = c.flag() ? 1 : -1, sy = c.flag() ? 1 : -1;
  const std::size_t rot = c.choose(uint32_t(m)), e = c.choose(uint32_t(m));
  const R off = c.pick(OFF) * (c.flag() ? 1 : -1), f = c.pick(std::vector<R>{0.05L, 0.25L, 0.5L, 0.85L});
  const auto map = [&](R x, R y) {
    const R a = (swap ? y : x) * sx, b = (swap ? x : y) * sy;
    V3 r = ax == 0 ? V3{a, b, 7} : ax == 1 ? V3{b, 7, a} : V3{7, a, b};
    return r;
  };
  const P &a = pg[e], &b = pg[(e + 1) % m];
  const R l = std::hypot(b.x - a.x, b.y - a.y), x = a.x + (b.x - a.x) * f - off * (b.y - a.y) / l, y = a.y + (b.y - a.y) * f + off * (b.x - a.x) / l;
  bool in = false;
  R margin = 1e9L;
  for (std::size_t i = 0; i < m; ++i) {
    const P &u = pg[i], &v = pg[(i + 1) % m];
    if ((u.y > y) != (v.y > y) && x < u.x + (y - u.y) / (v.y - u.y) * (v.x - u.x)) in = !in;
    const R t = std::min<R>(1, std::max<R>(0, ((x - u.x) * (v.x - u.x) + (y - u.y) * (v.y - u.y)) / ((v.x - u.x) * (v.x - u.x) + (v.y - u.y) * (v.y - u.y))));
    margin = std::min(margin, std::hypot(u.x + t * (v.x - u.x) - x, u.y + t * (v.y - u.y) - y));
  }
  if (margin < 0.0039L) return c.skip(); // the tolerance of the test is 0.001 along an axis
  std::vector<vec<T, 3>> vs;
  for (std::size_t i = 0; i < m; ++i) {
    const P& u = pg[(rev ? m - 1 - i + rot : i + rot) % m];
    vs.push_back(tv<T>(map(u.x, u.y)));
  }
  const vec<T, 3> p = tv<T>(map(x, y)), n = tv<T>(ax == 0 ? V3{0, 0, 1} : ax == 1 ? V3{0, -1, 0} : V3{1, 0, 0});
  NOTE("polygon ", vs, " point ", p);
  CHECK(vm::polygon_contains_point(p, n, vs.begin(), vs.end()) == in, p, in ? " is in " : " is not in ", vs, " with normal ", n, " (", off, " from an edge)");
  CHECK(vm::polygon_contains_point(p, vs.begin(), vs.end()) == in, p, in ? " is in " : " is not in ", vs, " (", off, " from an edge)");
  c.op(2);
  uint64_t hs = 0;
  for (auto& u : vs) Ctx::add(hs, u);
  c.state(hs, p);
}
MC_INSTANCE("near_edges_d", (near_edges<double>))
MC_INSTANCE("near_edges_f", (near_edges<float>))

// --- polygons with hundreds of vertices -------------------------------------------------------------------
template <class T> void polygons_huge(Ctx& c) {
  static const std::vector<int> N{33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1000};
  const int n = c.pick(N), kind = c.choose(2), w = 2 * n;
  std::vector<I2> p;
  if (kind == 0) // comb
    for (int i = 0; i < n; ++i) p.push_back(i == 0 ? I2{0, 0} : i == 1 ? I2{w, 0} : I2{w - 2 * (i - 2), i % 2 ? 2 : 8});
  else // two closed saws facing each other: every vertical line crosses two edges
    for (int i = 0; i < n; ++i) p.push_back(i < n / 2 ? I2{4 * i, i % 2 ? 2 : -2} : I2{4 * (n - 1 - i), i % 2 ? 6 : 10});
  const auto rot = std::size_t(std::vector<int>{0, 1, n / 2, n - 1}[c.choose(4)]);
  std::vector<I2> q;
  for (std::size_t i = 0; i < p.size(); ++i) q.push_back(p[(i + rot) % p.size()]);
  if (c.flag()) std::reverse(q.begin(), q.end());
  const Basis& B = c.pick(BASES);
  vec<T, 3> nn;
  for (std::size_t i = 0; i < 3; ++i) nn[i] = T(B.s[(i + 1) % 3] * B.t[(i + 2) % 3] - B.s[(i + 2) % 3] * B.t[(i + 1) % 3]);
  const auto map = [&](I2 a) {
    vec<T, 3> r;
    for (std::size_t i = 0; i < 3; ++i) r[i] = T(B.o[i]) + T(B.s[i]) * T(a.x) + T(B.t[i]) * T(a.y);
    return r;
  };
  std::vector<vec<T, 3>> vs;
  for (I2 a : q) vs.push_back(map(a));
  const int mx = kind == 0 ? w : 4 * (n / 2);
  for (int k = 0; k <= 24; ++k)
    for (int y : {-1, 1, 3, 5, 7, 9}) {
      const I2 a{k == 24 ? mx + 1 : mx * k / 24 + (k % 2), y};
      const int wh = where(q, a);
      const auto pt = map(a);
      NOTE("n=", n, " kind ", kind, " point ", pt);
      CHECK(vm::polygon_contains_point(pt, nn, vs.begin(), vs.end()) == (wh >= 0), pt, wh >= 0 ? " is in " : " is not in ", " a polygon of ", n, " vertices (kind ", kind, ") with normal ", nn);
      c.op();
      if (orient(q[0], q[1], q[2]) != 0) {
        CHECK(vm::polygon_contains_point(pt, vs.begin(), vs.end()) == (wh >= 0), pt, wh >= 0 ? " is in " : " is not in ", " a polygon of ", n, " vertices (kind ", kind, ")");
        c.op();
      }
    }
  c.state(n, kind, rot, vs[0], vs[1], nn);
}
MC_INSTANCE("polygons_huge_d", (polygons_huge<double>))

// --- skewed planes: components in every order of size and with every sign ----------------------------------------
template <class T> void skewed(Ctx& c) {
  static const std::vector<V3> D{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -1, 0}, {-1, 2, 2}, {3, 1, -1}, {0, 4, 1}};
  const Frame& f = c.pick(frames());
  const V3 o = c.pick(ANCHOR);
  const int kind = c.choose(3);
  if (kind < 2) {
    const V3 n = f(unit(c.pick(D))), m = f(unit(c.pick(D)));
    const R d = dot(n, o), e = c.pick(DI);
    const R cs = dot(n, m), sn = len(cross(n, m)), b = rtol<T>() * (1000 + std::fabs(d) + std::fabs(e));
    if (kind == 0) { // line through a point, plane
      NOTE("line ", str(o), str(m), " plane ", str(n), " ", d + e);
      const T g = vm::intersect_line_plane(line<T, 3>(tv<T>(o), tv<T>(m)), plane<T, 3>(T(d + e), tv<T>(n)));
      if (std::fabs(cs) < 1e-6L) CHECK(std::isnan(g), "a parallel line meets the plane at ", g);
      else CHECK(std::fabs(g - e / cs) <= b / std::fabs(cs), "the line meets the plane at ", g, ", should be ", e / cs);
      c.op();
    } else {
      NOTE("planes ", str(n), " ", d, " and ", str(m), " ", e);
      const line<T, 3> l = vm::intersect_plane_plane(plane<T, 3>(T(d), tv<T>(n)), plane<T, 3>(T(e), tv<T>(m)));
      if (sn < 1e-6L) CHECK(l.point == (vec<T, 3>{}) && l.direction == (vec<T, 3>{}), "parallel planes meet in ", l.point, l.direction);
      else {
        const V3 u = from(l.direction);
        CHECK(len(u - cross(n, m) / sn) <= rtol<T>() * 10 / sn || len(u + cross(n, m) / sn) <= rtol<T>() * 10 / sn, "direction ", l.direction, " of the line");
        for (R k : {0.0L, 10.0L}) {
          const V3 a = from(l.point) + u * k;
          const R t = rtol<T>() * (1000 + len(from(l.point))) / sn;
          CHECK(std::fabs(dot(a, n) - d) <= t && std::fabs(dot(a, m) - e) <= t, "point ", str(a), " of the line is off the planes by ", dot(a, n) - d, " and ", dot(a, m) - e);
        }
      }
      c.op();
    }
    c.state(tv<T>(n), tv<T>(m), tv<T>(o), T(e), kind);
    return;
  }
  using P2 = std::pair<R, R>;
  static const std::vector<std::vector<P2>> POLY{
    {{0, 0}, {4, 0}, {0, 3}},
    {{-2, -2}, {2, -2}, {2, 2}, {-2, 2}},
    {{-3, 0}, {-1, -3}, {2, -2}, {3, 1}, {0, 3}},
    {{-3, -3}, {3, -3}, {3, 0}, {0, 0}, {0, 3}, {-3, 3}},
    {{0, 0}, {6, 1}, {5, 2}, {4, 1.2L}, {3, 4}, {2, 1}, {1, 5}},
  };
  const auto& poly = c.pick(POLY);
  const uint32_t rot = c.choose(uint32_t(poly.size()));
  const bool rev = c.flag();
  const R k = c.pick(std::vector<R>{1, 31.7L});
  if (sizeof(T) == 4 && len(o) > 50) return c.skip();
  std::vector<vec<T, 3>> vs;
  uint64_t hs = 0;
  const auto map = [&](R x, R y) { return tv<T>(o + f({x * k, y * k, 0})); };
  for (std::size_t i = 0; i < poly.size(); ++i) {
    const P2 q = poly[(rev ? poly.size() - 1 - i + rot : i + rot) % poly.size()];
    vs.push_back(map(q.first, q.second));
    Ctx::add(hs, vs.back());
  }
  const vec<T, 3> n = tv<T>(f({0, 0, 1}));
  const auto all = [&](const vec<T, 3>& p, bool want, const char* pos) {
    CHECK(vm::polygon_contains_point(p, n, vs.begin(), vs.end()) == want, p, " is ", pos, " of ", vs, " with normal ", n);
    CHECK(vm::polygon_contains_point(p, -n, vs.begin(), vs.end()) == want, p, " is ", pos, " of ", vs, " with normal ", -n);
    const V3 e1 = from(vs[1]) - from(vs[0]), e2 = from(vs[2]) - from(vs[0]);
    if (len(cross(e1, e2)) > 0.1L * len(e1) * len(e2)) CHECK(vm::polygon_contains_point(p, vs.begin(), vs.end()) == want, p, " is ", pos, " of ", vs);
    c.op(3);
  };
  for (int iy = -15; iy <= 22; ++iy)
    for (int ix = -15; ix <= 26; ++ix) {
      const R x = ix * 0.25L + 0.013L, y = iy * 0.25L - 0.017L;
      bool in = false;
      R margin = 1e9L;
      for (std::size_t i = 0; i < poly.size(); ++i) {
        const P2 a = poly[i], b = poly[(i + 1) % poly.size()];
        if ((a.second > y) != (b.second > y) && x < (b.first - a.first) * (y - a.second) / (b.second - a.second) + a.first) in = !in;
        const R ex = b.first - a.first, ey = b.second - a.second, l2 = ex * ex + ey * ey;
        const R w = std::fmin(std::fmax(((x - a.first) * ex + (y - a.second) * ey) / l2, 0), 1);
        margin = std::fmin(margin, std::hypot(a.first + w * ex - x, a.second + w * ey - y));
      }
      if (margin < 0.004L) continue;
      all(map(x, y), in, in ? "an interior point" : "an outside point");
    }
  c.state(hs, n);
}
MC_INSTANCE("skewed_d", (skewed<double>))
MC_INSTANCE("skewed_f", (skewed<float>))
