// C22  ray intersections report the first true hit or a miss
// mc-flags: -O2 ubsan
// mc-assume: float torus: small radii only (the closed form quartic is too imprecise otherwise); ray directions are unit vectors; configurations closer to grazing, to an edge, or to the ray origin than the margins in the harness are outside the domain; torus major radius > minor radius
#include "mc.hpp"
#include "ref.hpp"
#include <algorithm>
#include <list>
#include <vecmath/bbox.h>
#include <vecmath/intersection.h>
#include <vecmath/plane.h>
#include <vecmath/ray.h>
using mc::Ctx;
using vm::bbox;
using vm::plane;
using vm::ray;
using vm::vec;
using namespace ref;

template <class T> constexpr R rtol() { return sizeof(T) == 4 ? 1e-4L : 1e-10L; }
template <class T> vec<T, 3> tv(V3 p) { return vec<T, 3>{T(p.x), T(p.y), T(p.z)}; }
static V3 dir(Ctx& c, int b) {
  const V3 d{R(c.range(-b, b)), R(c.range(-b, b)), R(c.range(-b, b))};
  if (len(d) == 0) {
    c.skip();
    return d;
  }
  return unit(d);
}
static V3 pt(Ctx& c, const std::vector<R>& A) {
  const R x = c.pick(A), y = c.pick(A), z = c.pick(A);
  return {x, y, z};
}
constexpr R MISS = std::numeric_limits<R>::quiet_NaN();
template <class T> void verify(Ctx& c, T got, R want, R scale, const char* what) {
  if (std::isnan(want)) CHECK(std::isnan(got), what, " reports a hit at ", got, ", should be a miss");
  else CHECK(std::fabs(got - want) <= rtol<T>() * scale, what, " reports ", got, ", the first hit is at ", want);
  c.op();
}

// --- plane ------------------------------------------------------------------------------------
template <class T> void ray_plane(Ctx& c) {
  static const std::vector<R> DI{0, 5, -17.5L};
  static const std::vector<R> A{0, 1, -9};
  const V3 n = dir(c, c.tiered(1, 2));
  if (c.is_skipped()) return;
  const V3 v = dir(c, 2);
  if (c.is_skipped()) return;
  const R d = c.pick(DI);
  const V3 o = pt(c, A);
  const R f = dot(n, v), t = (d - dot(n, o)) / f;
  NOTE("ray ", str(o), str(v), " plane ", str(n), " ", d);
  R want;
  if (std::fabs(f) < 1e-6L) want = MISS;
  else {
    if (std::fabs(t) < 0.01L) return c.skip();
    want = t > 0 ? t : MISS;
  }
  verify<T>(c, vm::intersect_ray_plane(ray<T, 3>(tv<T>(o), tv<T>(v)), plane<T, 3>(T(d), tv<T>(n))), want, 64 / std::fabs(f), "ray and plane");
  c.state(tv<T>(n), tv<T>(v), T(d), tv<T>(o));
}
MC_INSTANCE("plane_d", (ray_plane<double>))
MC_INSTANCE("plane_f", (ray_plane<float>))

// --- triangle ---------------------------------------------------------------------------------
template <class T> void triangle(Ctx& c) {
  static const std::vector<V3> P{{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {0, 0, 4}, {-3, 2, 1}, {2, -3, -2}, {5, 5, 3}};
  static const std::vector<V3> O{{1, 1, 1}, {10, 0, 0}, {-8, 3, 1}, {1, -9, 2}, {0.5L, 0.25L, 12}, {2, 1.5L, -10}, {-0.5L, -0.5L, -0.25L}};
  static const std::vector<R> SC{1, 1.0L / 64, 64};
  const R k = c.pick(SC);
  const uint32_t i1 = c.choose(7);
  uint32_t i2 = c.choose(6), i3 = c.choose(5);
  if (i2 >= i1) ++i2;
  for (uint32_t x = 0; x < 7; ++x)
    if ((x == i1 || x == i2) && i3 >= x) ++i3;
  if (i3 == i1 || i3 == i2) return c.skip();
  const V3 a = P[i1] * k, b = P[i2] * k, d = P[i3] * k;
  const V3 o = c.pick(O) * k;
  const V3 v = dir(c, 2);
  if (c.is_skipped()) return;
  const V3 n = cross(b - a, d - a);
  const ray<T, 3> r(tv<T>(o), tv<T>(v));
  NOTE("ray ", str(o), str(v), " triangle ", str(a), str(b), str(d));
  R want = MISS;
  const R f = dot(n, v) / len(n);
  if (std::fabs(f) >= 1e-9L) {
    if (std::fabs(f) < 0.02L) return c.skip();
    const R t = dot(n, a - o) / dot(n, v);
    if (std::fabs(t) < 0.01L * k) return c.skip();
    const V3 h = o + v * t;
    R mn = 1e9L;
    const V3 q[3] = {a, b, d};
    for (int i = 0; i < 3; ++i) { // signed distance from the edges
      const V3 e = q[(i + 1) % 3] - q[i];
      mn = std::fmin(mn, dot(cross(n / len(n), e / len(e)), h - q[i]));
    }
    if (std::fabs(mn) < 0.01L * k) return c.skip();
    want = t > 0 && mn > 0 ? t : MISS;
  } else if (std::fabs(dot(n, a - o)) < 1e-9L) return c.skip(); // the ray runs in the plane of the triangle
  verify<T>(c, vm::intersect_ray_triangle(r, tv<T>(a), tv<T>(b), tv<T>(d)), want, 100 * k, "ray and triangle");
  c.state(tv<T>(a), tv<T>(b), tv<T>(d), tv<T>(o), tv<T>(v));
}
MC_INSTANCE("triangle_d", (triangle<double>))
MC_INSTANCE("triangle_f", (triangle<float>))

// --- polygon ----------------------------------------------------------------------------------
using P2 = std::pair<R, R>;
static const std::vector<std::vector<P2>> POLY{
  {{0, 0}, {4, 0}, {0, 3}},
  {{-2, -2}, {2, -2}, {2, 2}, {-2, 2}},
  {{-3, 0}, {-1, -3}, {2, -2}, {3, 1}, {0, 3}},
  {{0, -3}, {3, 0}, {0, 3}, {-3, 0}},
  {{-3, -3}, {3, -3}, {3, 0}, {0, 0}, {0, 3}, {-3, 3}}, // L shaped
};
static bool inside(const std::vector<P2>& p, R x, R y, R& margin) {
  bool in = false;
  margin = 1e9L;
  for (std::size_t i = 0; i < p.size(); ++i) {
    const P2 a = p[i], b = p[(i + 1) % p.size()];
    if ((a.second > y) != (b.second > y) && x < (b.first - a.first) * (y - a.second) / (b.second - a.second) + a.first) in = !in;
    const R ex = b.first - a.first, ey = b.second - a.second, l2 = ex * ex + ey * ey;
    const R f = std::fmin(std::fmax(((x - a.first) * ex + (y - a.second) * ey) / l2, 0), 1);
    margin = std::fmin(margin, std::hypot(a.first + f * ex - x, a.second + f * ey - y));
  }
  return in;
}
template <class T> void polygon(Ctx& c) {
  static const std::vector<std::pair<V3, V3>> PL{{{0, 0, 1}, {1, 2, 3}}, {{0, 0, -1}, {-5, 0, 0}}, {{1, 0, 0}, {0, 2, 0}}, {{0, 1, 0}, {7, 7, -7}}, {{-1, 0, 0}, {0, 0, 0}}, {{1, 1, 1}, {0, 0, 0}}, {{2, -1, 1}, {3, -3, 3}}, {{-1, 3, -2}, {0, 5, 1}}};
  static const std::vector<P2> H{{0.25L, 0.25L}, {-1, 1}, {1.5L, 0.5L}, {1, 1}, {-1.5L, -1.5L}, {5, 0}, {0, -7}, {-2.5L, 2.75L}, {2.5L, -2.5L}};
  static const std::vector<R> HT{3, -2, 17};
  const auto& poly = c.pick(POLY);
  const auto& pl = c.pick(PL);
  const V3 n = unit(pl.first), s = perp(n), t = cross(n, s), o = pl.second;
  const uint32_t rot = c.choose(uint32_t(poly.size()));
  const bool rev = c.flag();
  std::vector<vec<T, 3>> vs;
  for (std::size_t i = 0; i < poly.size(); ++i) {
    const P2 q = poly[(rev ? poly.size() - 1 - i + rot : i + rot) % poly.size()];
    vs.push_back(tv<T>(o + s * q.first + t * q.second));
  }
  const P2 h = c.pick(H);
  const R ht = c.pick(HT);
  static const std::vector<P2> SLOPE{{0, 0}, {0.75L, 0}, {-0.75L, 0.75L}, {0, -0.75L}, {0.75L, 0.75L}, {-0.75L, -0.75L}, {8, 0}, {0, -8}, {-6, 7}};
  const P2 slope = c.pick(SLOPE);
  const bool away = c.flag();
  // a ray through the point h of the plane, starting at height ht
  const V3 hit = o + s * h.first + t * h.second;
  const V3 dn = unit(n + s * slope.first + t * slope.second);
  const R dist_ = ht / dot(dn, n);
  const V3 org = hit + dn * dist_;
  const V3 v = (dist_ > 0) == !away ? -dn : dn;
  R margin;
  const bool in = inside(poly, h.first, h.second, margin);
  if (margin < 0.01L) return c.skip();
  const R want = away || !in ? MISS : std::fabs(dist_);
  const ray<T, 3> r(tv<T>(org), tv<T>(v));
  NOTE("ray ", str(org), str(v), " polygon ", vs);
  verify<T>(c, vm::intersect_ray_polygon(r, plane<T, 3>(tv<T>(o), tv<T>(n)), vs.begin(), vs.end()), want, 200, "ray, plane and polygon");
  verify<T>(c, vm::intersect_ray_polygon(r, plane<T, 3>(tv<T>(o), tv<T>(-n)), vs.begin(), vs.end()), want, 200, "ray, flipped plane and polygon");
  verify<T>(c, vm::intersect_ray_polygon(r, vs.begin(), vs.end()), want, 200, "ray and polygon");
  std::list<std::pair<int, vec<T, 3>>> l;
  for (auto& x : vs) l.push_back({0, x});
  const auto get = [](const std::pair<int, vec<T, 3>>& x) -> const vec<T, 3>& { return x.second; };
  verify<T>(c, vm::intersect_ray_polygon(r, l.begin(), l.end(), get), want, 200, "ray and mapped polygon");
  if (poly.size() == 3) verify<T>(c, vm::intersect_ray_triangle(r, vs[0], vs[1], vs[2]), want, 200, "ray and triangle");
  uint64_t hs = 0;
  for (auto& x : vs) Ctx::add(hs, x);
  c.state(hs, tv<T>(org), tv<T>(v));
}
MC_INSTANCE("polygon_d", (polygon<double>))
MC_INSTANCE("polygon_f", (polygon<float>))
template <class T> void no_polygon(Ctx& c) { // colinear or too few points
  const V3 d = dir(c, 1);
  if (c.is_skipped()) return;
  const int n = c.range(0, 2);
  const V3 rd = dir(c, 1);
  if (c.is_skipped()) return;
  std::vector<vec<T, 3>> vs;
  for (int i = 0; i < n; ++i) vs.push_back(tv<T>(V3{1, 2, 3} + V3{R(d.x != 0), R(d.y != 0), R(d.z != 0)} * i));
  CHECK(std::isnan(vm::intersect_ray_polygon(ray<T, 3>(tv<T>({0, 0, 0}), tv<T>(rd)), vs.begin(), vs.end())), "a hit with a polygon of ", n, " points");
  c.op();
  c.state(tv<T>(d), n, tv<T>(rd));
}
MC_INSTANCE("no_polygon_d", (no_polygon<double>))

// --- box --------------------------------------------------------------------------------------
template <class T, std::size_t S> void box(Ctx& c) {
  static const std::vector<std::pair<R, R>> I{{-1, 2}, {3, 4}, {-8, 16}};
  static const std::vector<R> F{0.5L, -0.75L, 1.25L, 0.125L, -3, 1}; // origin relative to the interval
  R lo[S], hi[S], o[S], d[S];
  R l = 0;
  const int B = S == 2 ? 3 : c.tiered(1, 2);
  for (std::size_t i = 0; i < S; ++i) {
    const auto& iv = c.pick(I);
    lo[i] = iv.first, hi[i] = iv.second;
    o[i] = lo[i] + (hi[i] - lo[i]) * c.pick(F);
    d[i] = c.range(-B, B);
    l += d[i] * d[i];
  }
  if (l == 0) return c.skip();
  R tmin = -1e30L, tmax = 1e30L;
  bool miss = false;
  vec<T, S> vo, vd, vl, vh;
  for (std::size_t i = 0; i < S; ++i) {
    d[i] /= std::sqrt(l);
    vo[i] = T(o[i]), vd[i] = T(d[i]), vl[i] = T(lo[i]), vh[i] = T(hi[i]);
    if (d[i] == 0) {
      if (o[i] == lo[i] || o[i] == hi[i]) return c.skip(); // grazing
      if (o[i] < lo[i] || o[i] > hi[i]) miss = true;
    } else {
      const R a = (lo[i] - o[i]) / d[i], b = (hi[i] - o[i]) / d[i];
      tmin = std::fmax(tmin, std::fmin(a, b));
      tmax = std::fmin(tmax, std::fmax(a, b));
    }
  }
  if (!miss && (std::fabs(tmin - tmax) < 0.001L || std::fabs(tmin) < 0.001L || std::fabs(tmax) < 0.001L)) return c.skip();
  const R want = miss || tmin > tmax || tmax < 0 ? MISS : tmin > 0 ? tmin : tmax;
  NOTE("ray ", vo, vd, " box ", vl, vh);
  verify<T>(c, vm::intersect_ray_bbox(ray<T, S>(vo, vd), bbox<T, S>(vl, vh)), want, 100, "ray and box");
  c.state(vo, vd, vl, vh);
}
MC_INSTANCE("box_d3", (box<double, 3>))
MC_INSTANCE("box_f3", (box<float, 3>))
MC_INSTANCE("box_d2", (box<double, 2>))

// --- sphere -----------------------------------------------------------------------------------
template <class T> void sphere(Ctx& c) {
  static const std::vector<R> A{0, 1, -3.5L, 12};
  static const std::vector<R> RAD{1, 0.25L, 4, 16};
  const V3 ce = V3{2, -3, 5} * c.range(0, 1);
  const V3 o = pt(c, A);
  const V3 v = dir(c, 2);
  if (c.is_skipped()) return;
  const R rad = c.pick(RAD);
  const V3 w = o - ce;
  const R b = dot(w, v), disc = b * b - dot(w, w) + rad * rad;
  NOTE("ray ", str(o), str(v), " sphere ", str(ce), " ", rad);
  R want = MISS;
  if (std::fabs(disc) < 0.01L) return c.skip();
  if (disc > 0) {
    const R t1 = -b - std::sqrt(disc), t2 = -b + std::sqrt(disc);
    if (std::fabs(t1) < 0.001L || std::fabs(t2) < 0.001L) return c.skip();
    want = t1 > 0 ? t1 : t2 > 0 ? t2 : MISS;
  }
  verify<T>(c, vm::intersect_ray_sphere(ray<T, 3>(tv<T>(o), tv<T>(v)), tv<T>(ce), T(rad)), want, 200, "ray and sphere");
  c.state(tv<T>(ce), tv<T>(o), tv<T>(v), T(rad));
}
MC_INSTANCE("sphere_d", (sphere<double>))
MC_INSTANCE("sphere_f", (sphere<float>))

// --- torus ------------------------------------------------------------------------------------
// all real roots of a polynomial by recursion over the derivative and bisection
static std::vector<R> roots(const std::vector<R>& p) { // p[0] + p[1] x + ...
  const auto ev = [&](R x) {
    R r = 0;
    for (std::size_t i = p.size(); i-- > 0;) r = r * x + p[i];
    return r;
  };
  if (p.size() == 2) return {-p[0] / p[1]};
  std::vector<R> dp, br, r;
  for (std::size_t i = 1; i < p.size(); ++i) dp.push_back(p[i] * i);
  R bound = 0;
  for (std::size_t i = 0; i + 1 < p.size(); ++i) bound = std::fmax(bound, std::fabs(p[i] / p.back()));
  bound += 1;
  br.push_back(-bound);
  for (R x : roots(dp)) br.push_back(x);
  br.push_back(bound);
  std::sort(br.begin(), br.end());
  for (std::size_t i = 0; i + 1 < br.size(); ++i) {
    R a = br[i], b = br[i + 1], fa = ev(a), fb = ev(b);
    if ((fa < 0) == (fb < 0)) continue;
    for (int k = 0; k < 200 && b - a > 0; ++k) {
      const R m = (a + b) / 2;
      if (m == a || m == b) break;
      if ((ev(m) < 0) == (fa < 0)) a = m;
      else b = m;
    }
    r.push_back((a + b) / 2);
  }
  return r;
}
template <class T> void torus(Ctx& c) {
  static const std::vector<std::pair<R, R>> RAD{{3, 1}, {2, 1.5L}, {8, 2}, {16, 0.5L}};
  static const std::vector<R> A{0, 1.25L, -4, 20};
  const V3 ce = V3{2, -3, 5} * c.range(0, 1);
  const auto rd = RAD[c.choose(sizeof(T) == 4 ? 2 : 4)];
  const R M = rd.first, m = rd.second;
  const V3 o = pt(c, A) + ce;
  const V3 v = dir(c, c.tiered(1, 2));
  if (c.is_skipped()) return;
  const V3 w = o - ce;
  // (|p|^2 + M^2 - m^2)^2 - 4 M^2 (x^2 + y^2) with p = w + t v
  const R k = dot(w, w) + M * M - m * m, b = 2 * dot(w, v);
  const R xy2 = v.x * v.x + v.y * v.y, xy1 = 2 * (w.x * v.x + w.y * v.y), xy0 = w.x * w.x + w.y * w.y;
  const std::vector<R> p{k * k - 4 * M * M * xy0, 2 * k * b - 4 * M * M * xy1, 2 * k + b * b - 4 * M * M * xy2, 2 * b, 1};
  const auto ev = [&](R x) {
    R r = 0;
    for (std::size_t i = p.size(); i-- > 0;) r = r * x + p[i];
    return r;
  };
  // distance of a point to the surface
  const auto sd = [&](R t) {
    const V3 q = w + v * t;
    return std::hypot(std::hypot(q.x, q.y) - M, q.z) - m;
  };
  std::vector<R> dp;
  for (std::size_t i = 1; i < p.size(); ++i) dp.push_back(p[i] * i);
  for (R x : roots(dp))
    if (std::fabs(sd(x)) < 0.05L * m) return c.skip(); // grazing
  (void)ev;
  if (std::fabs(sd(0)) < 0.05L * m) return c.skip(); // origin on the surface
  R want = MISS;
  for (R x : roots(p))
    if (x > 0 && !(want < x)) want = x;
  NOTE("ray ", str(o), str(v), " torus ", str(ce), " ", M, " ", m);
  const T g = vm::intersect_ray_torus(ray<T, 3>(tv<T>(o), tv<T>(v)), tv<T>(ce), T(M), T(m));
  verify<T>(c, g, want, sizeof(T) == 4 ? 400 : 1e5L, "ray and torus");
  c.state(tv<T>(ce), T(M), tv<T>(o), tv<T>(v));
}
MC_INSTANCE("torus_d", (torus<double>))
MC_INSTANCE("torus_f", (torus<float>))

// --- shallow and steep rays against planes ---------------------------------------------------------
template <class T> void plane_steep(Ctx& c) {
  static const std::vector<V3> N{{0, 0, 1}, {0, -1, 0}, {1, 0, 0}, {1, 1, 1}, {2, -1, 3}, {-1, 4, -2}};
  static const std::vector<R> F{0.003L, 0.01L, 0.03L, 0.1L, 0.2L, 0.5L, 0.99L};
  static const std::vector<R> TT{0.02L, 0.1L, 0.5L, 8, 100, 5000};
  static const std::vector<V3> O{{0, 0, 0}, {1, -2, 0.5L}, {-64, 32, 16}};
  const V3 n = unit(c.pick(N)), s = perp(n), u = cross(n, s);
  const R f = c.pick(F) * (c.flag() ? 1 : -1), t = c.pick(TT) * (c.flag() ? 1 : -1);
  const R a = c.choose(4) * 1.1L;
  const V3 o = c.pick(O);
  const V3 v = n * f + (s * std::cos(a) + u * std::sin(a)) * std::sqrt(1 - f * f);
  const R scale = (16 + std::fabs(t) + len(o)) / std::fabs(f), d = dot(n, o + v * t);
  if (rtol<T>() * scale > std::fabs(t) / 2 + 0.001L) return c.skip();
  NOTE("ray ", str(o), str(v), " plane ", str(n), " ", d);
  verify<T>(c, vm::intersect_ray_plane(ray<T, 3>(tv<T>(o), tv<T>(v)), plane<T, 3>(T(d), tv<T>(n))), t > 0 ? t : MISS, scale, "ray and plane");
  c.state(tv<T>(n), tv<T>(v), T(d), tv<T>(o));
}
MC_INSTANCE("plane_steep_d", (plane_steep<double>))
MC_INSTANCE("plane_steep_f", (plane_steep<float>))

// --- rays aimed at a lattice over the triangle and its surroundings --------------------------------
template <class T> void triangle_aimed(Ctx& c) {
  static const std::vector<std::array<V3, 3>> TR{{V3{0, 0, 0}, {4, 0, 0}, {0, 4, 0}}, {V3{-3, 2, 1}, {2, -3, -2}, {5, 5, 3}}, {V3{0, 0, 0}, {0, 8, 0}, {0, 0, 1}}, {V3{1, 1, 1}, {3, 1, 1}, {2, 1, 9}}, {V3{10, 0, 0}, {10.5L, 0, 0}, {0, 10, 4}}};
  static const std::vector<R> BC{-1, -0.25L, -0.02L, 0.02L, 0.2L, 0.375L, 0.6L, 0.96L, 1.02L, 1.5L};
  static const std::vector<V3> O{{1, 2, 7}, {-6, 3, -5}, {5, -8, 4}, {9, 9, -3}, {-4, -7, 2}, {3, 40, 1}};
  static const std::vector<R> SC{1, 1.0L / 64, 64, 1.0L / 1024, 4096};
  const R k = c.pick(SC);
  const auto& tr = c.pick(TR);
  const uint32_t rot = c.choose(3);
  const bool rev = c.flag(), away = c.flag();
  V3 q[3];
  for (uint32_t i = 0; i < 3; ++i) q[i] = tr[((rev ? 2 - i : i) + rot) % 3] * k;
  const R b1 = c.pick(BC), b2 = c.pick(BC);
  const V3 h = q[0] + (q[1] - q[0]) * b1 + (q[2] - q[0]) * b2;
  V3 o = c.pick(O) * k;
  const V3 v = unit(h - o) * (away ? -1 : 1), n = unit(cross(q[1] - q[0], q[2] - q[0]));
  if (std::fabs(dot(n, v)) < 0.05L || dist(h, o) < 0.05L * k) return c.skip();
  if (sizeof(T) == 8 && k <= 1 && c.flag()) o = h + unit(o - h) * 4e-6L; // from close by
  R mn = 1e9L;
  for (int i = 0; i < 3; ++i) {
    const V3 e = q[(i + 1) % 3] - q[i];
    mn = std::fmin(mn, dot(cross(n, e / len(e)), h - q[i]));
  }
  if (std::fabs(mn) < 0.002L * k) return c.skip();
  NOTE("ray ", str(o), str(v), " triangle ", str(q[0]), str(q[1]), str(q[2]));
  verify<T>(c, vm::intersect_ray_triangle(ray<T, 3>(tv<T>(o), tv<T>(v)), tv<T>(q[0]), tv<T>(q[1]), tv<T>(q[2])), mn > 0 && !away ? dist(h, o) : MISS, 400 * k, "ray and triangle");
  c.state(tv<T>(q[0]), tv<T>(q[1]), tv<T>(q[2]), tv<T>(o), tv<T>(v));
}
MC_INSTANCE("triangle_aimed_d", (triangle_aimed<double>))
MC_INSTANCE("triangle_aimed_f", (triangle_aimed<float>))

// --- rays that pass the edges of a triangle closely ---------------------------------------------------------
template <class T> void triangle_edge(Ctx& c) {
  static const std::vector<std::array<V3, 3>> TR{{V3{0, 0, 0}, {4, 0, 0}, {0, 4, 0}}, {V3{-3, 2, 1}, {2, -3, -2}, {5, 5, 3}}, {V3{1, 1, 1}, {3, 1, 1}, {2, 1, 9}}};
  static const std::vector<R> SC{1, 64, 1.0L / 16, 4096};
  static const std::vector<R> OFF{1e-3L, 2e-3L, 1e-4L, 1e-6L, 1e-8L};
  const R k = SC[c.choose(sizeof(T) == 8 ? 4 : 2)], off = OFF[c.choose(sizeof(T) == 8 ? 5 : 2)] * (c.flag() ? 1 : -1), along = c.pick(std::vector<R>{0.125L, 0.5L, 0.9L});
  const auto& tr = c.pick(TR);
  const uint32_t rot = c.choose(3), edge = c.choose(3);
  const bool rev = c.flag();
  V3 q[3];
  for (uint32_t i = 0; i < 3; ++i) q[i] = tr[((rev ? 2 - i : i) + rot) % 3] * k;
  // off is the third barycentric coordinate: negative beyond the edge
  const V3 a = q[edge], b = q[(edge + 1) % 3], d = q[(edge + 2) % 3];
  const V3 h = (a * (1 - along) + b * along) * (1 - off) + d * off, n = unit(cross(q[1] - q[0], q[2] - q[0])), s = perp(n), t = cross(n, s);
  const V3 v = unit(c.pick(std::vector<V3>{n, -n, n + s * 0.4L, t * 0.3L - n, n - s * 0.2L + t * 0.5L}));
  const R way = 3 * k;
  const V3 o = h - v * way;
  NOTE("ray ", str(o), str(v), " triangle ", str(q[0]), str(q[1]), str(q[2]), " edge ", edge, " ", off);
  verify<T>(c, vm::intersect_ray_triangle(ray<T, 3>(tv<T>(o), tv<T>(v)), tv<T>(q[0]), tv<T>(q[1]), tv<T>(q[2])), off > 0 ? way : MISS, 400 * k, "ray and triangle");
  c.state(tv<T>(q[0]), tv<T>(q[1]), tv<T>(q[2]), tv<T>(o), tv<T>(v));
}
MC_INSTANCE("triangle_edge_d", (triangle_edge<double>))
MC_INSTANCE("triangle_edge_f", (triangle_edge<float>))

// --- rays aimed at points in and around a box ----------------------------------------------------------
template <class T, std::size_t S> void box_aimed(Ctx& c) {
  static const std::vector<R> E{1, 3, 16};
  static const std::vector<R> F{-2, -0.25L, 0.375L, 1.125L, 5};
  static const std::vector<R> G{-0.03L, 0.03L, 0.55L, 0.97L, 1.03L};
  static const std::vector<R> SC{1, 1.0L / 512, 512};
  const R k = c.pick(SC);
  R lo[S], hi[S], o[S], d[S], l = 0;
  for (std::size_t i = 0; i < S; ++i) {
    const R e = E[(i + (S > 2 ? 0 : c.choose(3))) % 3];
    lo[i] = (R(i) * 4 - 5) * k, hi[i] = lo[i] + e * k;
    o[i] = lo[i] + e * k * c.pick(F);
    d[i] = lo[i] + e * k * c.pick(G) - o[i];
    l += d[i] * d[i];
  }
  const bool away = c.flag();
  R tmin = -1e30L, tmax = 1e30L;
  vec<T, S> vo, vd, vl, vh;
  for (std::size_t i = 0; i < S; ++i) {
    d[i] /= std::sqrt(l) * (away ? -1 : 1);
    vo[i] = T(o[i]), vd[i] = T(d[i]), vl[i] = T(lo[i]), vh[i] = T(hi[i]);
    const R a = (lo[i] - o[i]) / d[i], b = (hi[i] - o[i]) / d[i];
    tmin = std::fmax(tmin, std::fmin(a, b));
    tmax = std::fmin(tmax, std::fmax(a, b));
  }
  if (std::fabs(tmin - tmax) < 0.001L * k || std::fabs(tmin) < 0.001L * k || std::fabs(tmax) < 0.001L * k) return c.skip();
  const R want = tmin > tmax || tmax < 0 ? MISS : tmin > 0 ? tmin : tmax;
  NOTE("ray ", vo, vd, " box ", vl, vh);
  verify<T>(c, vm::intersect_ray_bbox(ray<T, S>(vo, vd), bbox<T, S>(vl, vh)), want, 400 * k, "ray and box");
  c.state(vo, vd, vl, vh);
}
MC_INSTANCE("box_aimed_d3", (box_aimed<double, 3>))
MC_INSTANCE("box_aimed_f3", (box_aimed<float, 3>))
MC_INSTANCE("box_aimed_d2", (box_aimed<double, 2>))
MC_INSTANCE("box_aimed_d1", (box_aimed<double, 1>))
MC_INSTANCE("box_aimed_d4", (box_aimed<double, 4>), 0, 0, true)

// --- rays aimed at spheres and circles -------------------------------------------------------------------
template <class T, std::size_t S> void sphere_aimed(Ctx& c) {
  static const std::vector<R> SC{1, 1.0L / 512, 512};
  static const std::vector<R> RAD{0.25L, 2, 10};
  static const std::vector<R> BB{0, 0.5L, 0.9L, 0.98L, 1.02L, 1.5L, 4};  // distance of the centre from the ray / radius
  static const std::vector<R> TT{-20, -1.5L, -0.3L, 0.01L, 0.4L, 1.5L, 20}; // position of the centre along the ray / radius
  static const std::vector<V3> D{{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {1, 1, 1}, {-2, 1, 3}, {0.01L, 1, -0.05L}};
  static const std::vector<V3> CE{{0, 0, 0}, {2, -3, 5}, {-30, 1, 12}};
  const R k = c.pick(SC), rad = c.pick(RAD) * k;
  V3 v = c.pick(D), ce = c.pick(CE) * k;
  if (S == 2) v.z = ce.z = 0;
  if (len(v) == 0) return c.skip();
  v = unit(v);
  V3 s = S == 2 ? V3{-v.y, v.x, 0} : rotate(perp(v), v, c.choose(4) * 1.3L);
  if (S == 2 && c.flag()) s = -s;
  const R b = c.pick(BB), t = c.pick(TT);
  const V3 o = ce + s * (b * rad) - v * (t * rad);
  R want = MISS;
  if (b < 1) {
    const R hh = std::sqrt(1 - b * b), t1 = t - hh, t2 = t + hh;
    if (std::fabs(t1) < 0.005L || std::fabs(t2) < 0.005L) return c.skip();
    want = (t1 > 0 ? t1 : t2 > 0 ? t2 : MISS) * rad;
  }
  vec<T, S> vo, vd, vc;
  for (std::size_t i = 0; i < S; ++i) vo[i] = T(i == 0 ? o.x : i == 1 ? o.y : o.z), vd[i] = T(i == 0 ? v.x : i == 1 ? v.y : v.z), vc[i] = T(i == 0 ? ce.x : i == 1 ? ce.y : ce.z);
  NOTE("ray ", vo, vd, " sphere ", vc, " ", rad);
  if (sizeof(T) == 4 && (std::fabs(t) > 5 || rad < k)) return c.skip(); // cancellation in the discriminant
  verify<T>(c, vm::intersect_ray_sphere(ray<T, S>(vo, vd), vc, T(rad)), want, 600 * k, "ray and sphere");
  c.state(vo, vd, vc, T(rad));
}
MC_INSTANCE("sphere_aimed_d3", (sphere_aimed<double, 3>))
MC_INSTANCE("sphere_aimed_f3", (sphere_aimed<float, 3>))
MC_INSTANCE("sphere_aimed_d2", (sphere_aimed<double, 2>))

// --- polygons with many vertices ---------------------------------------------------------------------------
template <class T> void polygon_many(Ctx& c) {
  static const std::vector<V3> N{{0, 0, 1}, {0, -1, 0}, {1, 0, 0}, {3, 1, -2}, {-1, 2, 5}, {1, -4, 1}};
  static const std::vector<R> SC{1, 1.0L / 8, 256};
  static const std::vector<R> G{-9, -4.6L, -2.7L, -0.8L, 0.9L, 2.6L, 4.4L, 6.3L};
  const int n = c.range(6, c.tiered(13, 20)), kind = c.choose(3);
  std::vector<P2> p;
  for (int i = 0; i < n; ++i) {
    const R a = 6.283185307179586L * i / n + 0.1L;
    // convex, star shaped, or a comb
    if (kind == 0) p.push_back({6 * std::cos(a), 5 * std::sin(a)});
    else if (kind == 1) p.push_back({(i % 2 ? 2.5L : 7) * std::cos(a), (i % 2 ? 2.5L : 7) * std::sin(a)});
    else p.push_back(i == 0 ? P2{-6, -5} : i == 1 ? P2{6, -5} : P2{6 - 12 * R(i - 2) / (n - 3), i % 2 ? -3 : 5});
  }
  const R k = c.pick(SC);
  const R far = sizeof(T) == 8 && c.flag() ? 2e6L : 1;
  const V3 nn = unit(c.pick(N)), s = perp(nn), t = cross(nn, s), o = V3{1.1L, -2.3L, 3.7L} * (k * far);
  const uint32_t rot = c.choose(c.tiered(3u, uint32_t(n)));
  const bool rev = c.flag();
  std::vector<vec<T, 3>> vs;
  for (int i = 0; i < n; ++i) {
    const P2 q = p[(rev ? n - 1 - i + rot : i + rot) % n];
    vs.push_back(tv<T>(o + (s * q.first + t * q.second) * k));
  }
  const R x = c.pick(G), y = c.pick(G);
  R margin;
  const bool in = inside(p, x, y, margin);
  if (margin < 0.02L) return c.skip();
  const V3 h = o + (s * x + t * y) * k, v = unit(nn + s * 0.4L - t * 0.3L);
  const R way = sizeof(T) == 8 && far == 1 && c.flag() ? 0.0004L : 7 * k;
  const V3 org = h - v * way;
  NOTE("ray ", str(org), str(v), " polygon ", vs);
  const ray<T, 3> r(tv<T>(org), tv<T>(v));
  verify<T>(c, vm::intersect_ray_polygon(r, plane<T, 3>(tv<T>(o), tv<T>(nn)), vs.begin(), vs.end()), in ? way : MISS, 200 * k * (far > 1 ? 1000 : 1), "ray, plane and polygon");
  CHECK(vm::polygon_contains_point(tv<T>(h), tv<T>(nn), vs.begin(), vs.end()) == in, "containment of the hit point with a given normal");
  const V3 e1 = V3{R(vs[1][0]), R(vs[1][1]), R(vs[1][2])} - V3{R(vs[0][0]), R(vs[0][1]), R(vs[0][2])}, e2 = V3{R(vs[2][0]), R(vs[2][1]), R(vs[2][2])} - V3{R(vs[0][0]), R(vs[0][1]), R(vs[0][2])};
  if (len(cross(e1, e2)) > 0.05L * len(e1) * len(e2)) // the first three points determine the plane
    verify<T>(c, vm::intersect_ray_polygon(r, vs.begin(), vs.end()), in ? way : MISS, 2000 * k * (far > 1 ? 1000 : 1), "ray and polygon");
  uint64_t hs = 0;
  for (auto& q : vs) Ctx::add(hs, q);
  c.state(hs, tv<T>(org), tv<T>(v));
}
MC_INSTANCE("polygon_many_d", (polygon_many<double>))
MC_INSTANCE("polygon_many_f", (polygon_many<float>))

// --- polygons with hundreds of vertices ----------------------------------------------------------------------
template <class T> void polygon_huge(Ctx& c) {
  static const std::vector<V3> NN{{0, 0, 1}, {0, -1, 0}, {1, 0, 0}, {3, 1, -2}, {1, -4, 1}};
  static const std::vector<int> N{32, 33, 64, 65, 128, 129, 200, 255, 256, 257, 300, 512, 1000};
  const int n = c.pick(N), kind = c.choose(2);
  const R k = R(n) * 8;
  std::vector<P2> p;
  for (int i = 0; i < n; ++i) {
    const R a = 6.283185307179586L * i / n + 0.1L, f = kind == 1 && i % 2 ? 0.4L : 1;
    p.push_back({f * std::cos(a), f * 0.9L * std::sin(a)});
  }
  const V3 nn = unit(c.pick(NN)), s = perp(nn), t = cross(nn, s), o{11, -23, 37};
  const auto rot = std::vector<int>{0, 1, n / 2, n - 1}[c.choose(4)];
  const bool rev = c.flag();
  std::vector<vec<T, 3>> vs;
  for (int i = 0; i < n; ++i) {
    const P2 q = p[std::size_t((rev ? n - 1 - i + rot : i + rot) % n)];
    vs.push_back(tv<T>(o + (s * q.first + t * q.second) * k));
  }
  for (int j = 0; j < 16; ++j)
    for (R f : {0.2L, 0.6L, 0.93L, 1.2L}) {
      const R a = 6.283185307179586L * j / 16 + 0.23L, x = f * std::cos(a), y = f * 0.9L * std::sin(a);
      R margin;
      const bool in = inside(p, x, y, margin);
      if (margin * k < 0.02L) continue;
      const V3 h = o + (s * x + t * y) * k, v = unit(nn + s * 0.4L - t * 0.3L), org = h - v * 7;
      const ray<T, 3> r(tv<T>(org), tv<T>(v));
      NOTE("ray ", str(org), str(v), " n=", n, " kind ", kind);
      verify<T>(c, vm::intersect_ray_polygon(r, plane<T, 3>(tv<T>(o), tv<T>(nn)), vs.begin(), vs.end()), in ? 7 : MISS, 200 * k, "ray, plane and polygon");
    }
  c.state(n, kind, rot, rev, vs[0], vs[1]);
}
MC_INSTANCE("polygon_huge_d", (polygon_huge<double>))

// --- rays aimed at the surface of a torus -----------------------------------------------------------------
template <class T> void torus_aimed(Ctx& c) {
  static const std::vector<std::pair<R, R>> RAD{{3, 1}, {2, 1.5L}, {5, 0.75L}, {12, 3}};
  static const std::vector<V3> O{{0, 0, 0}, {0.5L, 0.25L, 2}, {1, 1, 0.1L}, {-6, 2, 3}, {9, -7, -4}, {0, 8, 0.5L}};
  const auto rd = RAD[c.choose(sizeof(T) == 4 ? 2 : 4)];
  const R M = rd.first, m = rd.second;
  const R ph = c.choose(c.tiered(8, 24)) * (6.283185307179586L / c.tiered(8, 24)) + 0.15L, th = c.choose(c.tiered(6, 16)) * (6.283185307179586L / c.tiered(6, 16)) + 0.4L;
  const V3 h{(M + m * std::cos(th)) * std::cos(ph), (M + m * std::cos(th)) * std::sin(ph), m * std::sin(th)};
  const V3 w = c.pick(O) * (M / 3), ce = V3{2, -3, 5} * c.range(0, 1);
  const bool away = c.flag();
  const V3 v = unit(h - w) * (away ? -1 : 1);
  const R k = dot(w, w) + M * M - m * m, b = 2 * dot(w, v);
  const R xy2 = v.x * v.x + v.y * v.y, xy1 = 2 * (w.x * v.x + w.y * v.y), xy0 = w.x * w.x + w.y * w.y;
  const std::vector<R> p{k * k - 4 * M * M * xy0, 2 * k * b - 4 * M * M * xy1, 2 * k + b * b - 4 * M * M * xy2, 2 * b, 1};
  const auto sd = [&](R t) {
    const V3 q = w + v * t;
    return std::hypot(std::hypot(q.x, q.y) - M, q.z) - m;
  };
  std::vector<R> dp;
  for (std::size_t i = 1; i < p.size(); ++i) dp.push_back(p[i] * i);
  for (R x : roots(dp))
    if (std::fabs(sd(x)) < 0.05L * m) return c.skip();
  if (std::fabs(sd(0)) < 0.05L * m) return c.skip();
  R want = MISS;
  for (R x : roots(p))
    if (x > 0 && !(want < x)) want = x;
  const V3 o = w + ce;
  NOTE("ray ", str(o), str(v), " torus ", str(ce), " ", M, " ", m);
  // the quartic is solved with an epsilon of 0.001 whose square root bounds the error of a root near a degenerate resolvent
  verify<T>(c, vm::intersect_ray_torus(ray<T, 3>(tv<T>(o), tv<T>(v)), tv<T>(ce), T(M), T(m)), want, 0.05L / rtol<T>(), "ray and torus");
  c.state(tv<T>(ce), T(M), tv<T>(o), tv<T>(v));
}
MC_INSTANCE("torus_aimed_d", (torus_aimed<double>))
MC_INSTANCE("torus_aimed_f", (torus_aimed<float>))

// --- axis-parallel rays on lattice coordinates: everything is exact, so touching counts -------------------
template <class T, std::size_t S> void exact_axis(Ctx& c) {
  static const std::vector<R> SC{1, 1.0L / 1024, 4096};
  const R k = c.pick(SC);
  const std::size_t ax = c.choose(uint32_t(S));
  const int sg = c.flag() ? 1 : -1;
  const bool ball = c.flag();
  vec<T, S> o, d, lo, hi, ce;
  int oi[S], li[S], hi_[S];
  d[ax] = T(sg);
  if (ball) {
    static const std::vector<int> RAD{1, 2, 5, 13};
    const int rad = c.pick(RAD);
    long w2 = 0, wa = 0;
    for (std::size_t i = 0; i < S; ++i) {
      const int cc = int(i) * 3 - 2, w = i == ax ? c.pick(std::vector<int>{-20, -13, -7, 0, 4, 13, 25}) : c.range(-5, c.tiered(13, 14));
      ce[i] = T(R(cc) * k), o[i] = T(R(cc + w) * k);
      if (i == ax) wa = w * sg;
      else w2 += long(w) * w;
    }
    const long h2 = long(rad) * rad - w2; // half of the chord, squared
    R want = MISS;
    if (h2 >= 0) {
      const R h = std::sqrt(R(h2)), t1 = -wa - h, t2 = -wa + h;
      if ((std::fabs(t1) < 0.001L && h != 0) || std::fabs(t2) < 0.001L) return c.skip(); // origin on the surface
      want = (t1 > 0 ? t1 : t2 > 0 ? t2 : MISS) * k;
    }
    NOTE("ray ", o, d, " sphere ", ce, " ", R(rad) * k);
    verify<T>(c, vm::intersect_ray_sphere(ray<T, S>(o, d), ce, T(R(rad) * k)), want, 100 * k, "ray and sphere");
    c.state(o, d, ce, rad, k);
    return;
  }
  bool miss = false;
  for (std::size_t i = 0; i < S; ++i) {
    const int e = c.range(0, 2) * 2; // flat boxes, too
    li[i] = int(i) - 1, hi_[i] = li[i] + e;
    oi[i] = li[i] + c.range(-1, e + 1);
    lo[i] = T(R(li[i]) * k), hi[i] = T(R(hi_[i]) * k), o[i] = T(R(oi[i]) * k);
    if (i != ax && (oi[i] < li[i] || oi[i] > hi_[i])) miss = true;
  }
  const int in = sg > 0 ? li[ax] - oi[ax] : oi[ax] - hi_[ax], out = sg > 0 ? hi_[ax] - oi[ax] : oi[ax] - li[ax]; // entry, exit
  NOTE("ray ", o, d, " box ", lo, hi);
  const T g = vm::intersect_ray_bbox(ray<T, S>(o, d), bbox<T, S>(lo, hi));
  if (!miss && in == 0) CHECK(g == T(0) || g == T(R(out) * k), "ray and box reports ", g, " for an origin on the surface");
  else verify<T>(c, g, miss || out < 0 ? MISS : (in > 0 ? in : out) * k, k, "ray and box");
  c.state(o, d, lo, hi);
}
MC_INSTANCE("exact_axis_d3", (exact_axis<double, 3>))
MC_INSTANCE("exact_axis_f3", (exact_axis<float, 3>))
MC_INSTANCE("exact_axis_d2", (exact_axis<double, 2>))

// --- skewed configurations: components in every order of size and with every sign ------------------------------
template <class T> void skewed(Ctx& c) {
  static const std::vector<V3> CE{{0, 0, 0}, {-7.3L, 2.9L, 11.7L}};
  static const std::vector<P2> H{{0.25L, 0.3L}, {-1.1L, 1.2L}, {1.5L, 0.4L}, {-1.6L, -1.4L}, {2.6L, -1.3L}, {-0.4L, -2.6L}, {-5, -1}, {1, 4}};
  static const std::vector<P2> SLOPE{{0, 0}, {0.8L, -0.3L}, {-1.7L, 0.6L}, {-4, -5}};
  static const std::vector<R> HT{0.3L, -2.9L, 41};
  const Frame& f = c.pick(frames());
  const V3 ce = c.pick(CE);
  const int kind = c.choose(3);
  const P2 slope = c.pick(SLOPE);
  const V3 n = f({0, 0, 1}), s = f({1, 0, 0}), t = f({0, 1, 0});
  const V3 dn = unit(n + s * slope.first + t * slope.second);
  if (kind == 0) { // plane, triangle and polygon
    const auto& poly = c.pick(POLY);
    const P2 h = c.pick(H);
    const R ht = c.pick(HT);
    const bool away = c.flag();
    R margin;
    const bool in = inside(poly, h.first, h.second, margin);
    if (margin < 0.01L) return c.skip();
    const V3 hit = ce + s * h.first + t * h.second;
    const R ds = ht / dot(dn, n);
    const V3 org = hit + dn * ds, v = (ds > 0) == !away ? -dn : dn;
    std::vector<vec<T, 3>> vs;
    uint64_t hs = 0;
    for (const P2& q : poly) vs.push_back(tv<T>(ce + s * q.first + t * q.second)), Ctx::add(hs, vs.back());
    NOTE("ray ", str(org), str(v), " polygon ", vs);
    const ray<T, 3> r(tv<T>(org), tv<T>(v));
    const plane<T, 3> p(tv<T>(ce), tv<T>(n));
    const R want = away ? MISS : std::fabs(ds);
    verify<T>(c, vm::intersect_ray_plane(r, p), want, 500, "ray and plane");
    verify<T>(c, vm::intersect_ray_polygon(r, p, vs.begin(), vs.end()), in ? want : MISS, 500, "ray, plane and polygon");
    verify<T>(c, vm::intersect_ray_polygon(r, vs.begin(), vs.end()), in ? want : MISS, 500, "ray and polygon");
    for (std::size_t i = 1; i + 1 < poly.size(); ++i) {
      const std::vector<P2> tri{poly[0], poly[i], poly[i + 1]};
      if (std::fabs((tri[1].first - tri[0].first) * (tri[2].second - tri[0].second) - (tri[1].second - tri[0].second) * (tri[2].first - tri[0].first)) < 0.5L) continue;
      const bool tin = inside(tri, h.first, h.second, margin);
      if (margin < 0.01L) continue;
      verify<T>(c, vm::intersect_ray_triangle(r, vs[0], vs[i], vs[i + 1]), tin ? want : MISS, 500, "ray and triangle");
    }
    c.state(hs, r.origin, r.direction, kind);
  } else if (kind == 1) { // sphere
    static const std::vector<V3> O{{0.3L, -0.2L, 0.5L}, {1, 2, 4}, {-1.5L, 0.5L, -6}, {3, 3, 1}};
    const V3 o = f(c.pick(O)), v = c.flag() ? dn : -dn;
    const R rad = c.pick(std::vector<R>{0.9L, 3.1L});
    const R b = dot(o, v), disc = b * b - dot(o, o) + rad * rad;
    if (std::fabs(disc) < 0.01L) return c.skip();
    R want = MISS;
    if (disc > 0) {
      const R t1 = -b - std::sqrt(disc), t2 = -b + std::sqrt(disc);
      if (std::fabs(t1) < 0.001L || std::fabs(t2) < 0.001L) return c.skip();
      want = t1 > 0 ? t1 : t2 > 0 ? t2 : MISS;
    }
    NOTE("ray ", str(o + ce), str(v), " sphere ", str(ce), " ", rad);
    verify<T>(c, vm::intersect_ray_sphere(ray<T, 3>(tv<T>(o + ce), tv<T>(v)), tv<T>(ce), T(rad)), want, 400, "ray and sphere");
    c.state(tv<T>(o), tv<T>(v), tv<T>(ce), T(rad), kind);
  } else { // box
    static const std::vector<V3> O{{0.3L, -0.2L, 0.5L}, {1, 2, 4}, {-1.5L, 0.5L, -6}, {3, 3, 1}};
    static const std::vector<V3> EXT{{1, 2, 3}, {3, 0.8L, 1.9L}};
    const V3 o = f(c.pick(O)), v = c.flag() ? dn : -dn, x = c.pick(EXT);
    R tmin = -1e30L, tmax = 1e30L;
    for (int i = 0; i < 3; ++i) {
      if (std::fabs(v[i]) < 1e-3L) return c.skip();
      const R a = (-x[i] - o[i]) / v[i], b = (x[i] - o[i]) / v[i];
      tmin = std::fmax(tmin, std::fmin(a, b));
      tmax = std::fmin(tmax, std::fmax(a, b));
    }
    if (std::fabs(tmin - tmax) < 0.002L || std::fabs(tmin) < 0.002L || std::fabs(tmax) < 0.002L) return c.skip();
    NOTE("ray ", str(o + ce), str(v), " box ", str(ce - x), str(ce + x));
    verify<T>(c, vm::intersect_ray_bbox(ray<T, 3>(tv<T>(o + ce), tv<T>(v)), bbox<T, 3>(tv<T>(ce - x), tv<T>(ce + x))), tmin > tmax || tmax < 0 ? MISS : tmin > 0 ? tmin : tmax, 1000, "ray and box");
    c.state(tv<T>(o), tv<T>(v), tv<T>(ce), tv<T>(x), kind);
  }
}
MC_INSTANCE("skewed_d", (skewed<double>))
MC_INSTANCE("skewed_f", (skewed<float>))
