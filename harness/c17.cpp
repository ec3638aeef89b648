// C17  segments are orientation-free and keep their invariant
// mc-flags: -O2 ubsan
// mc-assume: coordinates are finite; the direction is only asked of segments of nonzero length; containment is decided away from the tolerance
#include "mc.hpp"
#include "ref.hpp"
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/segment.h>
using mc::Ctx;
using ref::R;
using vm::mat;
using vm::segment;
using vm::vec;

template <class T> constexpr R rtol() { return sizeof(T) == 4 ? 2e-5L : 1e-12L; }
template <class T, std::size_t S> int lex(const vec<T, S>& a, const vec<T, S>& b) {
  for (std::size_t i = 0; i < S; ++i)
    if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
template <class T, std::size_t S> vec<T, S> pt(Ctx& c, const std::vector<T>& A) {
  vec<T, S> p;
  for (std::size_t i = 0; i < S; ++i) p[i] = c.pick(A);
  return p;
}
template <class T, std::size_t S> void invariant(Ctx& c, const segment<T, S>& s, const vec<T, S>& a, const vec<T, S>& b, const char* how) {
  const auto& lo = lex(a, b) <= 0 ? a : b;
  const auto& hi = lex(a, b) <= 0 ? b : a;
  CHECK(lex(s.start(), lo) == 0 && lex(s.end(), hi) == 0, how, " of ", a, " ", b, " stores ", s.start(), " ", s.end());
}

template <class T, std::size_t S> void single(Ctx& c) {
  static const std::vector<T> A{T(0), T(1), T(-2), T(0.3), T(64.1)};
  const auto a = pt<T, S>(c, A), b = pt<T, S>(c, A);
  const segment<T, S> s(a, b), r(b, a);
  NOTE("segment ", a, b);
  invariant(c, s, a, b, "construction");
  invariant(c, r, a, b, "construction");
  CHECK(s == r && !(s != r) && !(s < r) && !(s > r) && s <= r && s >= r && vm::compare(s, r) == 0 && vm::is_equal(s, r, T(0)), "a segment differs from the segment with swapped end points");
  const segment<T, S> def;
  invariant(c, def, vec<T, S>::zero(), vec<T, S>::zero(), "default construction");
  R l2 = 0;
  for (std::size_t i = 0; i < S; ++i) l2 += ((R)a[i] - b[i]) * ((R)a[i] - b[i]);
  CHECK(mc::close(s.length(), std::sqrt(l2), rtol<T>()), "length ", s.length());
  CHECK(mc::close(s.length_c(), std::sqrt(l2), rtol<T>()), "length_c ", s.length_c());
  CHECK(mc::close(s.squared_length(), l2, rtol<T>()), "squared_length ", s.squared_length());
  const auto ce = s.center();
  for (std::size_t i = 0; i < S; ++i) CHECK(mc::close(ce[i], ((R)a[i] + b[i]) / 2, rtol<T>()), "center ", ce);
  CHECK(s.get_origin() == s.start(), "origin");
  if (l2 > 0) {
    const auto d = s.direction(), g = s.get_direction();
    for (std::size_t i = 0; i < S; ++i) {
      const R w = ((R)s.end()[i] - s.start()[i]) / std::sqrt(l2);
      CHECK(mc::close(d[i], w, rtol<T>()) && mc::close(g[i], w, rtol<T>()), "direction ", d);
    }
    static const std::vector<T> D{T(0), T(1), T(-3), T(0.25)};
    for (T x : D) {
      const auto p = vm::point_at_distance(s, x);
      for (std::size_t i = 0; i < S; ++i) CHECK(mc::close(p[i], (R)s.start()[i] + x * ((R)s.end()[i] - s.start()[i]) / std::sqrt(l2), rtol<T>(), 64), "point at distance ", x, " is ", p);
      CHECK(mc::close(vm::distance_to_projected_point(s, p), x, rtol<T>(), 64), "distance to the point at distance ", x);
    }
    const auto e = vm::point_at_distance(s, s.length());
    for (std::size_t i = 0; i < S; ++i) CHECK(mc::close(e[i], s.end()[i], rtol<T>(), 64), "the point at the length is not the end point");
  }
  if (l2 > 0)
    for (T z : {T(1) / T(1 << 20), T(1 << 20)}) { // scaling by a power of two scales lengths and centers and keeps the direction
      const segment<T, S> t(a * z, b * z);
      CHECK(mc::close(t.length(), s.length() * z, rtol<T>(), 0) && mc::close(t.squared_length(), s.squared_length() * z * z, rtol<T>(), 0) && mc::close(t.length_c(), s.length() * z, rtol<T>(), 0), "length of the segment scaled by ", z, " is ", t.length());
      const auto tc = t.center(), td = t.direction(), sd = s.direction(), tp = vm::point_at_distance(t, z);
      for (std::size_t i = 0; i < S; ++i) {
        CHECK(std::fabs((R)tc[i] - (R)ce[i] * z) <= rtol<T>() * 64 * z, "center of the segment scaled by ", z, " is ", tc);
        CHECK(mc::close(td[i], sd[i], rtol<T>()), "direction of the segment scaled by ", z, " is ", td);
        CHECK(std::fabs((R)tp[i] - ((R)t.start()[i] + (R)sd[i] * z)) <= rtol<T>() * 64 * z, "point at distance ", z, " of the segment scaled by ", z, " is ", tp);
      }
    }
  std::vector<vec<T, S>> out;
  const std::vector<segment<T, S>> list{s, def, r};
  segment<T, S>::get_vertices(list.begin(), list.end(), std::back_inserter(out));
  CHECK(out.size() == 6 && out[0] == s.start() && out[1] == s.end() && out[2] == def.start() && out[4] == s.start() && out[5] == s.end(), "get_vertices yields ", out);
  c.op(16);
  c.state(a, b);
}
MC_INSTANCE("single_d1", (single<double, 1>))
MC_INSTANCE("single_d2", (single<double, 2>))
MC_INSTANCE("single_d3", (single<double, 3>))
MC_INSTANCE("single_f3", (single<float, 3>))
MC_INSTANCE("single_d4", (single<double, 4>), 0, 0, true)

// exact ordering of end points that differ by very little or very much, alone and through translation and comparison
template <class T, std::size_t S> void fine(Ctx& c) {
  using L = std::numeric_limits<T>;
  static const std::vector<T> A{T(0), L::denorm_min(), -L::min(), T(1), std::nextafter(T(1), T(2)), std::nextafter(T(1), T(0)), T(1) + T(1e-5), T(1) + T(1e-3), T(-1e-9), T(1e15), std::nextafter(T(1e15), T(0)), L::max(), L::lowest()};
  vec<T, S> a, b;
  for (std::size_t i = 0; i < S; ++i) a[i] = c.pick(A);
  for (std::size_t i = 0; i < S; ++i) b[i] = c.pick(A);
  const segment<T, S> s(a, b), r(b, a);
  NOTE("segment ", a, b);
  invariant(c, s, a, b, "construction");
  invariant(c, r, a, b, "construction");
  CHECK(s == r && !(s != r) && !(s < r) && !(s > r) && s <= r && s >= r && vm::compare(s, r) == 0 && vm::is_equal(s, r, T(0)), "a segment differs from the segment with swapped end points");
  const segment<T, S> t(a, a), u(b, b);
  const int w = lex(a, b);
  CHECK(vm::compare(t, u) == w && vm::compare(u, t) == -w && (t == u) == (w == 0) && (t < u) == (w < 0) && (t <= u) == (w <= 0) && (t > u) == (w > 0) && (t >= u) == (w >= 0) && (t != u) == (w != 0), "order of the segments ", a, a, " and ", b, b);
  const int x = lex(s.start(), a) ? lex(s.start(), a) : lex(s.end(), a);
  CHECK(vm::compare(s, t) == x && vm::compare(t, s) == -x && (s == t) == (x == 0) && (s < t) == (x < 0) && (s > t) == (x > 0), "order of the segments ", a, b, " and ", a, a);
  c.op(14);
  c.state(a, b);
}
MC_INSTANCE("fine_d1", (fine<double, 1>))
MC_INSTANCE("fine_f1", (fine<float, 1>))
MC_INSTANCE("fine_d2", (fine<double, 2>))
MC_INSTANCE("fine_f2", (fine<float, 2>))
MC_INSTANCE("fine_d3", (fine<double, 3>))

// every way of making a segment from another one
template <class T> void made(Ctx& c) {
  static const std::vector<T> A{T(0), T(1), T(-2)};
  static const std::vector<T> D{T(0), T(-5), T(3)};
  const auto a = pt<T, 3>(c, A), b = pt<T, 3>(c, A);
  const segment<T, 3> s(a, b);
  const auto d = pt<T, 3>(c, D);
  NOTE("segment ", a, b, " delta ", d);
  const auto add = [](const vec<T, 3>& p, const vec<T, 3>& q) { return vec<T, 3>{p[0] + q[0], p[1] + q[1], p[2] + q[2]}; };
  invariant(c, s.translate(d), add(a, d), add(b, d), "translation");
  invariant(c, vm::translate(s, d), add(a, d), add(b, d), "translation (free function)");
  // linear maps that reorder the points: signed axis permutations, shears
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  const auto& p = P[c.choose(6)];
  const int sg = c.range(0, 7);
  auto m = mat<T, 4, 4>::identity();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) m[i][j] = p[j] == i ? (sg & (1 << i) ? T(-1) : T(1)) : T(0);
  m[3][0] = d[0], m[3][1] = d[1], m[3][2] = d[2];
  const auto app = [&](const vec<T, 3>& v) {
    vec<T, 3> r;
    for (int i = 0; i < 3; ++i) r[i] = m[0][i] * v[0] + m[1][i] * v[1] + m[2][i] * v[2] + m[3][i];
    return r;
  };
  invariant(c, s.transform(m), app(a), app(b), "transformation");
  const auto sh = vm::shear_matrix(T(1), T(-2), T(2), T(0), T(-1), T(3));
  const auto as = [&](const vec<T, 3>& v) { return vec<T, 3>{v[0] + 2 * v[1] - v[2], v[0] + v[1] + 3 * v[2], -2 * v[0] + v[2]}; };
  invariant(c, s.transform(sh), as(a), as(b), "shearing");
  // copies
  segment<T, 3> k(s), l;
  l = k;
  invariant(c, k, a, b, "copy");
  invariant(c, l, a, b, "assignment");
  c.op(6);
  c.state(a, b, d, m[0], m[1], m[2]);
}
MC_INSTANCE("made_d", (made<double>))
MC_INSTANCE("made_f", (made<float>))
// axis scaling by powers of two (down to nothing) and translation: exact, and the result may be very short or very long
template <class T, std::size_t S> void scaled(Ctx& c) {
  static const std::vector<T> A{T(0), T(1), T(-3.1), T(1.7)};
  static const std::vector<T> F{T(1), T(-1), T(0), T(-1) / T(1024), T(1) / T(4096), T(-1) / T(1 << 24), T(-65536)};
  const auto a = pt<T, S>(c, A), b = pt<T, S>(c, A);
  const auto f = pt<T, S>(c, F);
  const T t = c.flag() ? T(-32) : T(0);
  auto m = mat<T, S + 1, S + 1>::identity();
  vec<T, S> x, y;
  for (std::size_t i = 0; i < S; ++i) m[i][i] = f[i], m[S][i] = t, x[i] = f[i] * a[i] + t, y[i] = f[i] * b[i] + t;
  const segment<T, S> s(a, b);
  NOTE("segment ", a, b, " factors ", f, " delta ", t);
  invariant(c, s.transform(m), x, y, "transformation");
  c.op();
  c.state(a, b, f, t);
}
MC_INSTANCE("scaled_d1", (scaled<double, 1>))
MC_INSTANCE("scaled_d2", (scaled<double, 2>))
MC_INSTANCE("scaled_f2", (scaled<float, 2>))
MC_INSTANCE("scaled_d3", (scaled<double, 3>))

// conversion to another component type: converting can make components equal (and so change the order)
template <class T, class U, std::size_t S> void converted(Ctx& c) {
  static const std::vector<U> A{U(0), U(1), U(1.25), U(1 + 1e-9), U(-2), U(-2.5), U(3e7 + 1), U(3e7)};
  const auto a = pt<U, S>(c, A), b = pt<U, S>(c, A);
  const segment<U, S> s(a, b);
  const segment<T, S> t(s);
  vec<T, S> ca, cb;
  for (std::size_t i = 0; i < S; ++i) ca[i] = T(a[i]), cb[i] = T(b[i]);
  NOTE("segment ", a, b);
  invariant(c, t, ca, cb, "conversion");
  CHECK((t == segment<T, S>(ca, cb)), "a converted segment differs from the segment of the converted points");
  c.op(1);
  c.state(a, b);
}
MC_INSTANCE("converted_fd2", (converted<float, double, 2>))
MC_INSTANCE("converted_fd3", (converted<float, double, 3>))
MC_INSTANCE("converted_id2", (converted<int, double, 2>))
MC_INSTANCE("converted_df2", (converted<double, float, 2>))

// order: all triples of segments over a small point set
template <class T, std::size_t S> void order(Ctx& c) {
  static const std::vector<T> A{T(0), T(1), T(-1)};
  static const std::vector<segment<T, S>> ALL = [] {
    std::vector<vec<T, S>> P;
    const int n = S == 1 ? 3 : 9;
    for (int k = 0; k < n; ++k) {
      vec<T, S> v{};
      v[0] = A[k % 3];
      if constexpr (S > 1) v[1] = A[k / 3];
      P.push_back(v);
    }
    std::vector<segment<T, S>> r;
    for (auto& p : P)
      for (auto& q : P) r.push_back(segment<T, S>(p, q));
    return r;
  }();
  const auto& x = c.pick(ALL);
  const auto& y = c.pick(ALL);
  NOTE("segments ", x.start(), x.end(), " ", y.start(), y.end());
  const auto ref = [](const segment<T, S>& p, const segment<T, S>& q) {
    const int k = lex(p.start(), q.start());
    return k ? k : lex(p.end(), q.end());
  };
  const int w = ref(x, y), g = vm::compare(x, y);
  CHECK(g == w, "compare is ", g, ", should be ", w);
  CHECK((x == y) == (w == 0) && (x != y) == (w != 0) && (x < y) == (w < 0) && (x <= y) == (w <= 0) && (x > y) == (w > 0) && (x >= y) == (w >= 0), "relational operators");
  CHECK(vm::compare(y, x) == -g, "not antisymmetric");
  const auto& z = c.pick(ALL);
  if (vm::compare(x, y) <= 0 && vm::compare(y, z) <= 0) CHECK(vm::compare(x, z) <= 0, "not transitive: ", z.start(), z.end());
  c.op(9);
  c.state(x.start(), x.end(), y.start(), y.end(), z.start(), z.end());
}
MC_INSTANCE("order_d1", (order<double, 1>))
MC_INSTANCE("order_d2", (order<double, 2>))
MC_INSTANCE("order_f3", (order<float, 3>), 0, 0, true)

// comparison with a tolerance: one coordinate off by d
template <class T> void tolerant(Ctx& c) {
  static const std::vector<T> E{T(0), T(0.25), T(1)};
  static const std::vector<T> D{T(0), T(0.125), T(-0.125), T(0.25), T(-0.25), T(0.5), T(-0.5), T(1), T(-1), T(2), T(-2)};
  const T e = c.pick(E);
  vec<T, 3> a{T(0), T(8), T(-8)}, b{T(64), T(-32), T(16)};
  const segment<T, 3> s(a, b);
  const int k1 = c.range(0, 5), k2 = c.range(0, 5);
  const T d1 = c.pick(D), d2 = c.pick(D);
  (k1 < 3 ? a[k1] : b[k1 - 3]) += d1;
  (k2 < 3 ? a[k2] : b[k2 - 3]) += d2;
  const bool flip = c.flag();
  const auto t = flip ? segment<T, 3>(b, a) : segment<T, 3>(a, b);
  NOTE("other ", t.start(), t.end(), " epsilon ", e);
  int w = 0;
  for (int i = 0; i < 6 && w == 0; ++i) {
    const T x = i < 3 ? s.start()[i] : s.end()[i - 3], y = i < 3 ? t.start()[i] : t.end()[i - 3];
    if (x < y - e) w = -1;
    else if (x > y + e) w = 1;
  }
  CHECK(vm::compare(s, t, e) == w && vm::compare(t, s, e) == -w, "compare with epsilon is ", vm::compare(s, t, e), " and ", vm::compare(t, s, e), ", should be ", w);
  CHECK(vm::is_equal(s, t, e) == (w == 0), "is_equal");
  c.op(3);
  c.state(a, b, e, flip);
}
MC_INSTANCE("tolerant_d", (tolerant<double>))
MC_INSTANCE("tolerant_f", (tolerant<float>))

// containment, for every tolerance away from the true distance
template <class T, std::size_t S> void contains(Ctx& c) {
  static const std::vector<T> A = S == 1 ? std::vector<T>{T(0), T(1), T(-2), T(8.1), T(8.7)} : std::vector<T>{T(0), T(1), T(-2), T(8.1)};
  static const std::vector<T> Q{T(0), T(1), T(-3), T(8.1), T(4.7)};
  static const std::vector<T> M{T(0.001), T(0.5), T(1), T(2), T(3), T(8), T(100)};
  auto a = pt<T, S>(c, A), b = pt<T, S>(c, A);
  vec<T, S> p;
  const uint32_t mode = c.choose(2);
  if (mode == 0) p = pt<T, S>(c, Q);
  else { // a point built from the segment: along it and beyond its ends
    static const std::vector<T> F{T(0), T(1), T(0.5), T(0.25), T(-0.25), T(1.25), T(-1), T(2)};
    const T f = c.pick(F);
    for (std::size_t i = 0; i < S; ++i) p[i] = a[i] + (b[i] - a[i]) * f;
  }
  const T zoom = T(c.pick(std::vector<R>{1, 1.0L / 4096, 65536}));
  const T m = c.pick(M) * zoom;
  a = a * zoom, b = b * zoom, p = p * zoom;
  const segment<T, S> s(a, b);
  R l2 = 0, dt = 0;
  for (std::size_t i = 0; i < S; ++i) l2 += ((R)b[i] - a[i]) * ((R)b[i] - a[i]), dt += ((R)b[i] - a[i]) * ((R)p[i] - a[i]);
  const R f = l2 > 0 ? std::fmin(std::fmax(dt / l2, 0), 1) : 0;
  R d2 = 0;
  for (std::size_t i = 0; i < S; ++i) {
    const R x = a[i] + ((R)b[i] - a[i]) * f - p[i];
    d2 += x * x;
  }
  const R d = std::sqrt(d2);
  if (std::fabs(d - m) < (sizeof(T) == 4 ? 1e-4L : 1e-9L) * zoom) return c.skip();
  NOTE("segment ", a, b, " point ", p, " tolerance ", m, " distance ", d);
  CHECK(s.contains(p, m) == (d < m), "contains is ", s.contains(p, m), " at distance ", d, " with tolerance ", m);
  c.op(1);
  c.state(a, b, p, m);
}
MC_INSTANCE("contains_d1", (contains<double, 1>))
MC_INSTANCE("contains_d2", (contains<double, 2>))
MC_INSTANCE("contains_d3", (contains<double, 3>))
MC_INSTANCE("contains_f3", (contains<float, 3>))
