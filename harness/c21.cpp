// C21  distances between lines, rays, segments and points are minimal
// mc-flags: -O2 ubsan
// mc-assume: directions are unit vectors; two objects are exactly parallel or enclose an angle of at least about 2 degrees; the parallel flag is not asked of segments of length zero
#include "mc.hpp"
#include "ref.hpp"
#include <vecmath/distance.h>
#include <vecmath/line.h>
#include <vecmath/ray.h>
#include <vecmath/segment.h>
using mc::Ctx;
using vm::line;
using vm::ray;
using vm::segment;
using vm::vec;
using namespace ref;

template <class T> vec<T, 3> tv(V3 p) { return vec<T, 3>{T(p.x), T(p.y), T(p.z)}; }
template <class T> constexpr R rtol() { return sizeof(T) == 4 ? 1e-4L : 1e-10L; }
constexpr R INF = std::numeric_limits<R>::infinity();

// an object: origin, unit direction (or zero), parameter interval
struct Obj {
  V3 o, d;
  R lo, hi;
  V3 at(R t) const { return o + d * t; }
  R clamp(R t) const { return std::fmin(std::fmax(t, lo), hi); }
  R closest(V3 p) const { return clamp(dot(p - o, d)); } // parameter of the closest point
};
// minimum of a convex quadratic over a product of intervals: the interior stationary point or a
// point with one parameter at a bound; for parallel objects some minimum has a parameter at a bound
static R minimum(const Obj& a, const Obj& b, bool& parallel) {
  const R bb = dot(a.d, b.d), D = dot(a.d, a.d) * dot(b.d, b.d) - bb * bb;
  parallel = D < 1e-12L;
  R best = INF;
  const auto cand = [&](R s, R t) { best = std::fmin(best, dist(a.at(s), b.at(t))); };
  if (!parallel) {
    const V3 w = a.o - b.o;
    const R s = (bb * dot(b.d, w) - dot(a.d, w)) / D;
    const R t = (dot(b.d, w) - bb * dot(a.d, w)) / D;
    if (s >= a.lo && s <= a.hi && t >= b.lo && t <= b.hi) cand(s, t);
  }
  for (R s : {a.lo, a.hi})
    if (std::isfinite(s)) cand(s, b.closest(a.at(s)));
  for (R t : {b.lo, b.hi})
    if (std::isfinite(t)) cand(a.closest(b.at(t)), t);
  if (parallel && !std::isfinite(a.lo) && !std::isfinite(b.lo)) cand(0, b.closest(a.o));
  return best;
}
template <class T> Obj of(const ray<T, 3>& r) { return {from(r.origin), from(r.direction), 0, INF}; }
template <class T> Obj of(const line<T, 3>& l) { return {from(l.point), from(l.direction), -INF, INF}; }
template <class T> Obj of(const segment<T, 3>& s) {
  const V3 a = from(s.start()), b = from(s.end());
  const R l = dist(a, b);
  return {a, l > 0 ? (b - a) / l : V3{}, 0, l};
}
template <class T, class A, class B> void verify(Ctx& c, const A& a, const B& b, bool flag, R scale) {
  const Obj x = of(a), y = of(b);
  bool par;
  const R want = minimum(x, y, par), e = rtol<T>() * scale;
  const auto d = vm::distance(a, b), q = vm::squared_distance(a, b);
  CHECK(std::fabs(d.distance - want) <= std::sqrt(e) * (want < 1e-3L ? 1 : 0) + e, "distance is ", d.distance, ", the minimum is ", want);
  CHECK(std::fabs(q.distance - want * want) <= e * (1 + want) * 4, "squared distance is ", q.distance, ", the minimum is ", want * want);
  CHECK(mc::same(d.position1, q.position1) && mc::same(d.position2, q.position2) && d.parallel == q.parallel, "distance and squared_distance report different positions");
  CHECK(d.position1 >= x.lo - e && d.position1 <= x.hi + e, "position ", d.position1, " is not on the first object");
  CHECK(d.position2 >= y.lo - e && d.position2 <= y.hi + e, "position ", d.position2, " is not on the second object");
  CHECK(std::fabs(dist(x.at(d.position1), y.at(d.position2)) - want) <= e * 8, "the reported positions ", d.position1, " and ", d.position2, " are ", dist(x.at(d.position1), y.at(d.position2)), " apart, the distance is ", want);
  if (flag) {
    CHECK(d.parallel == par, "parallel is ", d.parallel);
    CHECK(d.is_colinear(T(want + 0.5L)) == par && !d.is_colinear(T(want - 0.5L)), "is_colinear");
  }
  c.op(2);
}

static V3 dir(Ctx& c, int b) {
  const V3 d{R(c.range(-b, b)), R(c.range(-b, b)), R(c.range(-b, b))};
  if (len(d) == 0) {
    c.skip();
    return d;
  }
  return unit(d);
}
static V3 pt(Ctx& c, const std::vector<R>& A) {
  const R x = c.pick(A), y = c.pick(A), z = c.pick(A);
  return {x, y, z};
}

// the second direction: a lattice direction, or the first one tilted by 3 to 40 degrees, or nearly reversed
static V3 other(Ctx& c, V3 d1, int b) {
  if (c.flag()) return dir(c, b);
  static const std::vector<R> F{0.0625L, -0.0625L, 0.2L, 0.45L, -0.8L};
  const R f = c.pick(F);
  V3 p = perp(d1);
  if (c.flag()) p = unit(p + cross(d1, p) * 0.7L);
  const V3 d = unit(d1 + p * f);
  return c.flag() ? -d : d;
}
// the factors other than one use every digit of T
static const std::vector<R> ZOOM{1, 1.1L / 256, 281.7L, 0.9L / 65536};

template <class T> void points(Ctx& c) {
  static const std::vector<R> P{0, 2, -3, 0.5L, 16};
  static const std::vector<R> Q{0, 2, -5, 8.25L};
  const R k = c.pick(ZOOM), tol = rtol<T>() * k, sq = k * k;
  const V3 o = pt(c, std::vector<R>{0, -4}) * k;
  const V3 p = pt(c, P) * k;
  const bool seg = c.flag();
  if (seg) {
    const V3 e = pt(c, Q) * k;
    const segment<T, 3> s(tv<T>(o), tv<T>(e));
    NOTE("segment ", str(o), str(e), " point ", str(p));
    const Obj x = of(s);
    const R t = x.closest(p), d = dist(x.at(t), p);
    const auto g = vm::distance(s, tv<T>(p)), q = vm::squared_distance(s, tv<T>(p));
    CHECK(std::fabs(g.position - t) <= tol * 32 && mc::same(g.position, q.position), "position is ", g.position, ", should be ", t);
    CHECK(std::fabs(g.distance - d) <= tol * 32 + (d < 1e-3L * k ? std::sqrt(rtol<T>()) * k : 0), "distance is ", g.distance, ", should be ", d);
    CHECK(mc::close(q.distance, d * d, rtol<T>() * 8, 32 * sq), "squared distance is ", q.distance, ", should be ", d * d);
    c.state(tv<T>(o), tv<T>(e), tv<T>(p), 1);
  } else {
    const V3 v = dir(c, 2);
    if (c.is_skipped()) return;
    const ray<T, 3> r(tv<T>(o), tv<T>(v));
    NOTE("ray ", str(o), str(v), " point ", str(p));
    const Obj x = of(r);
    const R t = x.closest(p), d = dist(x.at(t), p);
    const auto g = vm::distance(r, tv<T>(p)), q = vm::squared_distance(r, tv<T>(p));
    CHECK(std::fabs(g.position - t) <= tol * 32 && mc::same(g.position, q.position), "position is ", g.position, ", should be ", t);
    CHECK(std::fabs(g.distance - d) <= tol * 32 + (d < 1e-3L * k ? std::sqrt(rtol<T>()) * k : 0), "distance is ", g.distance, ", should be ", d);
    CHECK(mc::close(q.distance, d * d, rtol<T>() * 8, 32 * sq), "squared distance is ", q.distance, ", should be ", d * d);
    c.state(tv<T>(o), tv<T>(v), tv<T>(p), 0);
  }
  c.op(2);
}
MC_INSTANCE("points_d", (points<double>))
MC_INSTANCE("points_f", (points<float>))

template <class T> void ray_ray(Ctx& c) {
  static const std::vector<R> A{0, 1, -1, 3, -4.5L};
  static const std::vector<R> B{0, 1, -1, 2, -3, 7, -4.5L};
  const V3 o = V3{5.1L, -2.3L, 0.7L} * c.range(0, 1);
  const V3 d1 = dir(c, 1);
  if (c.is_skipped()) return;
  const V3 d2 = other(c, d1, c.tiered(1, 2));
  if (c.is_skipped()) return;
  const R k = c.pick(ZOOM);
  const V3 rel = pt(c, c.thorough() ? B : A) * k;
  const ray<T, 3> a(tv<T>(o), tv<T>(d1)), b(tv<T>(o + rel), tv<T>(d2));
  NOTE("rays ", str(o), str(d1), " and ", str(o + rel), str(d2));
  verify<T>(c, a, b, true, k > 1 ? 4096 : 16 * k);
  c.state(tv<T>(o), tv<T>(d1), tv<T>(d2), tv<T>(rel));
}
MC_INSTANCE("ray_ray_d", (ray_ray<double>))
MC_INSTANCE("ray_ray_f", (ray_ray<float>))

template <class T> void ray_line(Ctx& c) {
  static const std::vector<R> A{0, 1, -1, 3, -4.5L};
  static const std::vector<R> B{0, 1, -1, 2, -3, 7, -4.5L};
  const V3 o = V3{5.1L, -2.3L, 0.7L} * c.range(0, 1);
  const V3 d1 = dir(c, 1);
  if (c.is_skipped()) return;
  const V3 d2 = other(c, d1, c.tiered(1, 2));
  if (c.is_skipped()) return;
  const R k = c.pick(ZOOM);
  const V3 rel = pt(c, c.thorough() ? B : A) * k;
  const ray<T, 3> a(tv<T>(o), tv<T>(d1));
  const line<T, 3> b(tv<T>(o + rel), tv<T>(d2));
  NOTE("ray ", str(o), str(d1), " line ", str(o + rel), str(d2));
  verify<T>(c, a, b, true, k > 1 ? 4096 : 16 * k);
  c.state(tv<T>(o), tv<T>(d1), tv<T>(d2), tv<T>(rel));
}
MC_INSTANCE("ray_line_d", (ray_line<double>))
MC_INSTANCE("ray_line_f", (ray_line<float>))

template <class T> void ray_segment(Ctx& c) {
  static const std::vector<R> A{0, 1, -2, 3};
  static const std::vector<R> B{0, 1, -2, 3, -1};
  static const std::vector<R> SC{1, 1.1L / 64, 70.3L, 3001.7L};
  const R k = c.pick(SC); // size of the segment and its distance from the ray
  const V3 o = V3{5.1L, -2.3L, 0.7L} * c.range(0, 1);
  const V3 d = dir(c, 1);
  if (c.is_skipped()) return;
  const auto& AL = c.thorough() ? B : A;
  const V3 p = pt(c, AL), q = pt(c, AL);
  const ray<T, 3> r(tv<T>(o), tv<T>(d));
  const segment<T, 3> s(tv<T>(o + p * k), tv<T>(o + q * k));
  NOTE("ray ", str(o), str(d), " segment ", str(o + p * k), str(o + q * k));
  verify<T>(c, r, s, len(p - q) > 0 && k >= 0.5L, k > 1 ? 16 * k : 16 * k);
  c.state(tv<T>(o), tv<T>(d), tv<T>(p * k), tv<T>(q * k));
}
MC_INSTANCE("ray_segment_d", (ray_segment<double>))
MC_INSTANCE("ray_segment_f", (ray_segment<float>))

// --- skewed configurations: every order of the components and every sign ----------------------------------------
template <class T> void skewed(Ctx& c) {
  static const std::vector<V3> D{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {-1, 0, 1}, {1, -2, 2}, {-1, 0, 0}, {0, 2, -1}};
  static const std::vector<V3> P{{0, 0, 0}, {1, 0, 0}, {-1, 0, 0}, {0, 2, 0}, {0, 0, 3}, {2, 2, 1}, {-2, 1, -1}, {3, -1, 2}};
  const Frame& f = c.pick(frames());
  const int kind = c.choose(5);
  const V3 o = c.pick(std::vector<V3>{{0, 0, 0}, {5.1L, -2.3L, 0.7L}}), d = f(unit(c.pick(D))), p = f(c.pick(P));
  const ray<T, 3> r(tv<T>(o), tv<T>(d));
  if (kind == 0) {
    const V3 e = f(unit(c.pick(D)));
    NOTE("rays ", str(o), str(d), " and ", str(o + p), str(e));
    verify<T>(c, r, ray<T, 3>(tv<T>(o + p), tv<T>(e)), true, 16);
    c.state(tv<T>(o), tv<T>(d), tv<T>(p), tv<T>(e), kind);
  } else if (kind == 1) {
    const V3 e = f(unit(c.pick(D)));
    NOTE("ray ", str(o), str(d), " line ", str(o + p), str(e));
    verify<T>(c, r, line<T, 3>(tv<T>(o + p), tv<T>(e)), true, 16);
    c.state(tv<T>(o), tv<T>(d), tv<T>(p), tv<T>(e), kind);
  } else if (kind == 2) {
    const V3 e = f(c.pick(P));
    NOTE("ray ", str(o), str(d), " segment ", str(o + p), str(o + e));
    verify<T>(c, r, segment<T, 3>(tv<T>(o + p), tv<T>(o + e)), len(p - e) > 0.1L, 16);
    c.state(tv<T>(o), tv<T>(d), tv<T>(p), tv<T>(e), kind);
  } else {
    const V3 e = kind == 3 ? V3{} : f(c.pick(P));
    NOTE(kind == 3 ? "ray " : "segment ", str(o), str(kind == 3 ? d : o + e), " point ", str(o + p));
    const segment<T, 3> s(tv<T>(o), tv<T>(o + e));
    const Obj x = kind == 3 ? of(r) : of(s);
    const V3 q = from(tv<T>(o + p));
    const R t = x.closest(q), want = dist(x.at(t), q), tol = rtol<T>() * 32;
    const auto g = kind == 3 ? vm::distance(r, tv<T>(o + p)) : vm::distance(s, tv<T>(o + p));
    const auto h = kind == 3 ? vm::squared_distance(r, tv<T>(o + p)) : vm::squared_distance(s, tv<T>(o + p));
    CHECK(std::fabs(g.position - t) <= tol && mc::same(g.position, h.position), "position is ", g.position, ", should be ", t);
    CHECK(std::fabs(g.distance - want) <= tol + (want < 1e-3L ? std::sqrt(rtol<T>()) : 0), "distance is ", g.distance, ", should be ", want);
    CHECK(std::fabs(h.distance - want * want) <= tol * 8, "squared distance is ", h.distance, ", should be ", want * want);
    c.op(2);
    c.state(tv<T>(o), tv<T>(d), tv<T>(p), tv<T>(e), kind);
  }
}
MC_INSTANCE("skewed_d", (skewed<double>))
MC_INSTANCE("skewed_f", (skewed<float>))
