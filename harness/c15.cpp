// C15  box queries, set operations and traversals are exact
// mc-flags: -O2 ubsan
// mc-assume: boxes are valid (min <= max); repair is also given boxes made invalid by assignment
#include "mc.hpp"
#include "ref.hpp"
#include <algorithm>
#include <vecmath/bbox.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
using mc::Ctx;
using vm::bbox;
using vm::mat;
using vm::vec;
using ref::R;

template <class T, std::size_t S> vec<T, S> coords(Ctx& c, const std::vector<T>& A) {
  vec<T, S> p;
  for (std::size_t i = 0; i < S; ++i) p[i] = c.pick(A);
  return p;
}
template <class T, std::size_t S> bbox<T, S> box(Ctx& c, const std::vector<std::pair<T, T>>& A) {
  vec<T, S> lo, hi;
  for (std::size_t i = 0; i < S; ++i) {
    const auto& p = c.pick(A);
    lo[i] = p.first;
    hi[i] = p.second;
  }
  return bbox<T, S>(lo, hi);
}
template <class T> std::vector<std::pair<T, T>> intervals(int n) {
  std::vector<std::pair<T, T>> r;
  for (int a = 0; a < n; ++a)
    for (int b = a; b < n; ++b) r.push_back({T(a - n / 2), T(b - n / 2)});
  return r;
}
template <class T, std::size_t S> std::string bs(const bbox<T, S>& b) {
  std::ostringstream s;
  s.precision(17);
  Ctx::put(s, b.min);
  Ctx::put(s, b.max);
  return s.str();
}

// point queries: every box against every point position, per component
template <class T, std::size_t S, int N> void points(Ctx& c) {
  static const auto I = intervals<T>(N);
  static const std::vector<T> A = [] {
    std::vector<T> a;
    for (int i = -2; i <= 2 * N; ++i) a.push_back(T(i) / 2 - T(N / 2));
    if (!std::numeric_limits<T>::is_integer) {
      a.push_back(std::nextafter(T(0), T(1)));
      a.push_back(std::nextafter(T(-1), T(-2)));
    }
    return a;
  }();
  const auto b = box<T, S>(c, I);
  const auto p = coords<T, S>(c, A);
  NOTE("box ", bs(b), " point ", p);
  bool in = true;
  const auto rel = b.relative_position(p);
  const auto con = b.constrain(p);
  for (std::size_t i = 0; i < S; ++i) {
    in = in && p[i] >= b.min[i] && p[i] <= b.max[i];
    const auto w = p[i] < b.min[i] ? bbox<T, S>::Range::less : p[i] > b.max[i] ? bbox<T, S>::Range::greater : bbox<T, S>::Range::within;
    CHECK(rel[i] == w, "relative position ", i);
    const T cl = p[i] < b.min[i] ? b.min[i] : p[i] > b.max[i] ? b.max[i] : p[i];
    CHECK(con[i] == cl, "constrain gives ", con);
  }
  CHECK(b.contains(p) == in, "contains is ", b.contains(p));
  CHECK(b.contains(bbox<T, S>(p, p)) == in, "contains(point box)");
  const auto m = vm::merge(b, p);
  for (std::size_t i = 0; i < S; ++i) CHECK(m.min[i] == std::min(b.min[i], p[i]) && m.max[i] == std::max(b.max[i], p[i]), "merge(box, point) gives ", bs(m));
  c.op(5);
  c.state(b.min, b.max, p);
}
MC_INSTANCE("points_d1", (points<double, 1, 6>))
MC_INSTANCE("points_d2", (points<double, 2, 4>))
MC_INSTANCE("points_f2", (points<float, 2, 3>))
MC_INSTANCE("points_d3", (points<double, 3, 2>))
MC_INSTANCE("points_i2", (points<int, 2, 4>))

// pairs of boxes
template <class T, std::size_t S, int N> void pairs(Ctx& c) {
  static const auto I = intervals<T>(N);
  const auto a = box<T, S>(c, I), b = box<T, S>(c, I);
  NOTE("boxes ", bs(a), bs(b));
  bool con = true, enc = true, hit = true, eq = true;
  for (std::size_t i = 0; i < S; ++i) {
    con = con && b.min[i] >= a.min[i] && b.max[i] <= a.max[i];
    enc = enc && b.min[i] > a.min[i] && b.max[i] < a.max[i];
    hit = hit && std::max(a.min[i], b.min[i]) <= std::min(a.max[i], b.max[i]);
    eq = eq && a.min[i] == b.min[i] && a.max[i] == b.max[i];
  }
  CHECK(a.contains(b) == con, "contains is ", a.contains(b));
  CHECK(a.encloses(b) == enc, "encloses is ", a.encloses(b));
  CHECK(a.intersects(b) == hit && b.intersects(a) == hit, "intersects is ", a.intersects(b), b.intersects(a));
  CHECK((a == b) == eq && (a != b) == !eq, "== is ", a == b, " != is ", a != b);
  const auto m = vm::merge(a, b), x = vm::intersect(a, b);
  for (std::size_t i = 0; i < S; ++i) {
    CHECK(m.min[i] == std::min(a.min[i], b.min[i]) && m.max[i] == std::max(a.max[i], b.max[i]), "merge gives ", bs(m));
    CHECK(x.min[i] == (hit ? std::max(a.min[i], b.min[i]) : T(0)) && x.max[i] == (hit ? std::min(a.max[i], b.max[i]) : T(0)), "intersect gives ", bs(x));
  }
  c.op(6);
  c.state(a.min, a.max, b.min, b.max);
}
MC_INSTANCE("pairs_d1", (pairs<double, 1, 6>))
MC_INSTANCE("pairs_d2", (pairs<double, 2, 4>))
MC_INSTANCE("pairs_d3", (pairs<double, 3, 3>))
MC_INSTANCE("pairs_f3", (pairs<float, 3, 2>))
MC_INSTANCE("pairs_i2", (pairs<int, 2, 4>))
MC_INSTANCE("pairs_d3_4", (pairs<double, 3, 4>), 0, 0, true)

// equality with a tolerance: difference in one or two coordinates of every kind
template <class T, std::size_t S> void tolerance(Ctx& c) {
  static const std::vector<T> D{T(0), T(0.5), T(-0.5), T(1), T(-1), T(1.5), T(-1.5), T(0.25)};
  static const std::vector<T> E{T(0), T(0.25), T(1), T(0.75)};
  vec<T, S> lo, hi;
  for (std::size_t i = 0; i < S; ++i) lo[i] = T(int(i) - 8), hi[i] = T(int(i) * 4 + 8);
  const bbox<T, S> a(lo, hi);
  const T e = c.pick(E);
  const std::size_t k1 = c.choose(2 * S), k2 = c.choose(2 * S);
  const T d1 = c.pick(D), d2 = c.pick(D);
  (k1 < S ? lo[k1] : hi[k1 - S]) += d1;
  (k2 < S ? lo[k2] : hi[k2 - S]) += d2;
  const bbox<T, S> b(lo, hi);
  bool eq = true;
  for (std::size_t i = 0; i < S; ++i) eq = eq && std::fabs(a.min[i] - b.min[i]) <= e && std::fabs(a.max[i] - b.max[i]) <= e;
  NOTE("boxes ", bs(a), bs(b), " epsilon ", e);
  CHECK(vm::is_equal(a, b, e) == eq && vm::is_equal(b, a, e) == eq, "is_equal is ", vm::is_equal(a, b, e), vm::is_equal(b, a, e));
  c.op();
  c.state(lo, hi, e);
}
MC_INSTANCE("tolerance_d1", (tolerance<double, 1>))
MC_INSTANCE("tolerance_d2", (tolerance<double, 2>))
MC_INSTANCE("tolerance_d3", (tolerance<double, 3>))
MC_INSTANCE("tolerance_f3", (tolerance<float, 3>))

// values of a single box
template <class T, std::size_t S> void values(Ctx& c) {
  static const std::vector<std::pair<T, T>> I{{T(0), T(0)}, {T(0), T(1)}, {T(-3), T(5)}, {T(-8), T(-8)}, {T(2.1), T(66.3)}, {T(-1024), T(1024)}, {T(-5), T(-4)}, {T(-1.7), T(0.3)}};
  static const std::vector<T> F{T(0), T(1), T(0.3), T(16)};
  const auto b = box<T, S>(c, I);
  const T f = c.pick(F);
  NOTE("box ", bs(b), " value ", f);
  const auto ce = b.center(), sz = b.size();
  R vol = 1;
  bool empty = false, valid = true;
  const auto ex = b.expand(f);
  vec<T, S> d;
  for (std::size_t i = 0; i < S; ++i) d[i] = f * T(int(i) - 1) + T(1);
  const auto tr = b.translate(d);
  for (std::size_t i = 0; i < S; ++i) {
    CHECK(mc::close(ce[i], ((R)b.min[i] + b.max[i]) / 2, 4 * std::numeric_limits<T>::epsilon(), std::fmax(std::fabs(b.min[i]), std::fabs(b.max[i]))), "center ", ce);
    CHECK(sz[i] == b.max[i] - b.min[i], "size ", sz);
    vol *= sz[i];
    empty = empty || b.min[i] == b.max[i];
    CHECK(ex.min[i] == b.min[i] - f && ex.max[i] == b.max[i] + f, "expand ", bs(ex));
    CHECK(tr.min[i] == b.min[i] + d[i] && tr.max[i] == b.max[i] + d[i], "translate ", bs(tr));
  }
  CHECK(mc::close(b.volume(), vol, 8 * std::numeric_limits<T>::epsilon(), 0), "volume ", b.volume());
  CHECK(b.is_empty() == empty, "is_empty ", b.is_empty());
  CHECK(b.is_valid() == valid, "is_valid");
  // shrinking by less than half the smallest extent
  bool shrink = true;
  for (std::size_t i = 0; i < S; ++i) shrink = shrink && sz[i] >= 2 * f;
  if (shrink) {
    const auto sh = b.expand(-f);
    for (std::size_t i = 0; i < S; ++i) CHECK(sh.min[i] == b.min[i] + f && sh.max[i] == b.max[i] - f, "expand(-f) ", bs(sh));
  }
  // all corners
  for (unsigned k = 0; k < (1u << S); ++k) {
    typename bbox<T, S>::Corner cs[S];
    for (std::size_t i = 0; i < S; ++i) cs[i] = k & (1u << i) ? bbox<T, S>::Corner::max : bbox<T, S>::Corner::min;
    const auto v = b.corner(cs);
    for (std::size_t i = 0; i < S; ++i) CHECK(v[i] == (k & (1u << i) ? b.max[i] : b.min[i]), "corner ", k, " is ", v);
    if constexpr (S == 3) {
      const auto w = b.corner(cs[0], cs[1], cs[2]);
      CHECK(w == v, "corner(x, y, z)");
    }
  }
  // construction and conversion
  const bbox<T, S> def, sym(f), fill(-f, f + 1);
  const bbox<double, S> wide(b);
  const bbox<float, S> nar(b);
  for (std::size_t i = 0; i < S; ++i) {
    CHECK(def.min[i] == T(0) && def.max[i] == T(0), "default box ", bs(def));
    CHECK(sym.min[i] == -f && sym.max[i] == f, "bbox(f) ", bs(sym));
    CHECK(fill.min[i] == -f && fill.max[i] == f + 1, "bbox(min, max) ", bs(fill));
    CHECK(wide.min[i] == double(b.min[i]) && wide.max[i] == double(b.max[i]), "conversion ", bs(wide));
    CHECK(nar.min[i] == float(b.min[i]) && nar.max[i] == float(b.max[i]), "conversion ", bs(nar));
  }
  // repair of the box with any set of components swapped
  const unsigned sw = c.choose(1u << S);
  bbox<T, S> broken = b;
  bool ok = true;
  for (std::size_t i = 0; i < S; ++i)
    if (sw & (1u << i)) {
      std::swap(broken.min[i], broken.max[i]);
      ok = ok && b.min[i] == b.max[i];
    }
  CHECK(broken.is_valid() == ok, "is_valid of ", bs(broken), " is ", broken.is_valid());
  CHECK((bbox<T, S>::is_valid(broken.min, broken.max)) == ok, "is_valid(min, max)");
  CHECK(vm::repair(broken) == b, "repair of ", bs(broken), " gives ", bs(vm::repair(broken)));
  c.op(12);
  c.state(b.min, b.max, f, sw);
}
MC_INSTANCE("values_d1", (values<double, 1>))
MC_INSTANCE("values_d2", (values<double, 2>))
MC_INSTANCE("values_d3", (values<double, 3>))
MC_INSTANCE("values_f3", (values<float, 3>))
MC_INSTANCE("values_d4", (values<double, 4>), 0, 0, true)

// traversals of nonempty boxes
template <class T> void traversal(Ctx& c) {
  static const std::vector<std::pair<T, T>> I{{T(0), T(1)}, {T(-3), T(5)}, {T(2.1), T(66.3)}, {T(-1024), T(1024)}, {T(-5), T(-4)}, {T(-1.7), T(0.3)}};
  const auto b = box<T, 3>(c, I);
  NOTE("box ", bs(b));
  // index of a corner, -1 if the point is no corner (up to rounding)
  const auto id = [&](const vec<T, 3>& v) {
    int k = 0;
    for (int i = 0; i < 3; ++i) {
      const T e = 4 * std::numeric_limits<T>::epsilon() * std::max(std::fabs(b.min[i]), std::fabs(b.max[i]));
      if (std::fabs(v[i] - b.max[i]) <= e) k |= 1 << i;
      else if (!(std::fabs(v[i] - b.min[i]) <= e)) return -1;
    }
    return k;
  };
  std::vector<int> vs;
  b.for_each_vertex([&](const vec<T, 3>& v) { vs.push_back(id(v)); });
  auto s = vs;
  std::sort(s.begin(), s.end());
  CHECK((s == std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7}), "for_each_vertex visits corners ", vs);
  const auto arr = b.vertices();
  for (std::size_t i = 0; i < 8; ++i) CHECK(id(arr[i]) == vs[i], "vertices()[", i, "] is ", arr[i]);
  std::vector<std::pair<int, int>> es;
  b.for_each_edge([&](const vec<T, 3>& p, const vec<T, 3>& q) {
    const int x = id(p), y = id(q);
    CHECK(x >= 0 && y >= 0, "edge ", p, q, " does not connect corners");
    CHECK((x ^ y) == 1 || (x ^ y) == 2 || (x ^ y) == 4, "edge ", p, q, " connects no neighbouring corners");
    es.push_back({std::min(x, y), std::max(x, y)});
  });
  std::sort(es.begin(), es.end());
  CHECK(es.size() == 12 && std::unique(es.begin(), es.end()) == es.end(), "for_each_edge does not visit 12 different edges");
  unsigned faces = 0;
  int nf = 0;
  b.for_each_face([&](const vec<T, 3>& p0, const vec<T, 3>& p1, const vec<T, 3>& p2, const vec<T, 3>& p3, const vec<T, 3>& n) {
    ++nf;
    int ax = -1;
    for (int i = 0; i < 3; ++i)
      if (std::fabs(n[i]) == 1 && n[(i + 1) % 3] == 0 && n[(i + 2) % 3] == 0) ax = i;
    CHECK(ax >= 0, "face normal ", n);
    const int bit = n[ax] > 0 ? 1 : 0;
    faces |= 1u << (2 * ax + bit);
    const vec<T, 3> p[4] = {p0, p1, p2, p3};
    unsigned seen = 0;
    for (int i = 0; i < 4; ++i) {
      const int k = id(p[i]), l = id(p[(i + 1) % 4]);
      CHECK(k >= 0, "face vertex ", p[i], " is no corner");
      CHECK(((k >> ax) & 1) == bit, "vertex ", p[i], " does not lie on the face with normal ", n);
      CHECK((k ^ l) == 1 || (k ^ l) == 2 || (k ^ l) == 4, "face vertices ", i, " are no neighbours");
      seen |= 1u << k;
      // clockwise as seen from outside
      const ref::V3 e1 = ref::from(p[(i + 1) % 4]) - ref::from(p[i]), e2 = ref::from(p[(i + 2) % 4]) - ref::from(p[(i + 1) % 4]);
      CHECK(ref::dot(ref::cross(e1, e2), ref::from(n)) < 0, "face with normal ", n, " is not clockwise");
    }
    CHECK(__builtin_popcount(seen) == 4, "face repeats a vertex");
  });
  CHECK(nf == 6 && faces == 63, "for_each_face visits ", nf, " faces");
  c.op(4);
  c.state(b.min, b.max);
}
MC_INSTANCE("traversal_d", (traversal<double>))
MC_INSTANCE("traversal_f", (traversal<float>))

// transformation: smallest box around the transformed corners
template <class T> void transform(Ctx& c) {
  static const std::vector<std::pair<T, T>> I{{T(0), T(1)}, {T(-3), T(5)}, {T(2), T(2)}, {T(-16.1), T(0.3)}};
  static const std::vector<T> E{T(0), T(1), T(-1), T(2)};
  const auto b = box<T, 3>(c, I);
  auto m = mat<T, 4, 4>::identity();
  const int kind = c.range(0, 2);
  if (kind == 0) { // signed permutation of the axes with a translation
    static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    const auto& p = P[c.choose(6)];
    const int sg = c.range(0, 7);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) m[i][j] = p[j] == i ? (sg & (1 << i) ? T(-1) : T(1)) : T(0);
    const int t = c.range(0, 3);
    m[3][0] = T(t), m[3][1] = T(-5 * t), m[3][2] = T(64 * t);
  } else if (kind == 1) { // general linear: two columns chosen freely
    const int k1 = c.range(0, 2), k2 = (k1 + 1) % 3;
    for (int j = 0; j < 3; ++j) m[k1][j] = c.pick(E), m[k2][j] = c.pick(E);
  } else { // perspective: w = 2 for all corners or depends on x (positive for all corners)
    m[3][3] = T(128);
    m[0][3] = c.pick(E);
    m[1][3] = c.pick(E);
    m[2][0] = c.pick(E);
  }
  NOTE("box ", bs(b), " matrix columns ", m[0], m[1], m[2], m[3]);
  R lo[3], hi[3];
  for (int k = 0; k < 8; ++k) {
    R v[3], o[4];
    for (int i = 0; i < 3; ++i) v[i] = k & (1 << i) ? b.max[i] : b.min[i];
    for (int r = 0; r < 4; ++r) o[r] = (R)m[0][r] * v[0] + (R)m[1][r] * v[1] + (R)m[2][r] * v[2] + (R)m[3][r];
    for (int i = 0; i < 3; ++i) {
      const R q = o[i] / o[3];
      if (k == 0 || q < lo[i]) lo[i] = q;
      if (k == 0 || q > hi[i]) hi[i] = q;
    }
  }
  const auto t = b.transform(m);
  for (int i = 0; i < 3; ++i) CHECK(mc::close(t.min[i], lo[i], kind < 2 ? 8 * std::numeric_limits<T>::epsilon() : mc::tol<T>(), 64) && mc::close(t.max[i], hi[i], kind < 2 ? 8 * std::numeric_limits<T>::epsilon() : mc::tol<T>(), 64), "transform gives ", bs(t), ", component ", i, " should be ", lo[i], " ", hi[i]);
  c.op();
  c.state(b.min, b.max, m[0], m[1], m[2], m[3]);
}
MC_INSTANCE("transform_d", (transform<double>))
MC_INSTANCE("transform_f", (transform<float>))

// bounds and positions that differ by anything from one unit in the last place to many orders of magnitude
template <class T> const std::vector<T>& fine_alphabet() {
  static const std::vector<T> A = [] {
    const T up = std::numeric_limits<T>::max(), dn = -up;
    std::vector<T> a{T(0), std::nextafter(T(0), up), T(1e-12), T(1e-6), T(1e-4), T(0.0011), T(0.009), T(1), std::nextafter(T(1), up), T(1.0001), T(1.002), T(1e3), std::nextafter(T(1e3), dn), T(1e9)};
    const std::size_t n = a.size();
    for (std::size_t i = 1; i < n; ++i) a.push_back(-a[i]);
    std::sort(a.begin(), a.end());
    return a;
  }();
  return A;
}
// every component but one is a fixed generic one
template <class T, std::size_t S> void fine_points(Ctx& c) {
  const auto& A = fine_alphabet<T>();
  const std::size_t k = c.choose(S);
  const uint32_t i = c.choose(uint32_t(A.size())), j = i + c.choose(uint32_t(A.size()) - i);
  vec<T, S> lo, hi, p;
  for (std::size_t x = 0; x < S; ++x) lo[x] = T(-7), hi[x] = T(9), p[x] = T(0.5);
  lo[k] = A[i], hi[k] = A[j], p[k] = c.pick(A);
  const bbox<T, S> b(lo, hi);
  NOTE("box ", bs(b), " point ", p);
  const bool in = p[k] >= lo[k] && p[k] <= hi[k];
  CHECK(b.contains(p) == in && b.contains(bbox<T, S>(p, p)) == in, "contains is ", b.contains(p));
  CHECK(b.intersects(bbox<T, S>(p, p)) == in, "intersects is ", b.intersects(bbox<T, S>(p, p)));
  CHECK((b.encloses(bbox<T, S>(p, p))) == (p[k] > lo[k] && p[k] < hi[k]), "encloses is ", b.encloses(bbox<T, S>(p, p)));
  using Rg = typename bbox<T, S>::Range;
  CHECK(b.relative_position(p)[k] == (p[k] < lo[k] ? Rg::less : p[k] > hi[k] ? Rg::greater : Rg::within), "relative position");
  CHECK(b.constrain(p)[k] == (p[k] < lo[k] ? lo[k] : p[k] > hi[k] ? hi[k] : p[k]), "constrain gives ", b.constrain(p));
  const auto m = vm::merge(b, p);
  CHECK(m.min[k] == std::min(lo[k], p[k]) && m.max[k] == std::max(hi[k], p[k]), "merge gives ", bs(m));
  CHECK(b.is_empty() == (lo[k] == hi[k]), "is_empty");
  bbox<T, S> br = b;
  std::swap(br.min, br.max);
  CHECK(br.is_valid() == (S == 1 && lo[k] == hi[k]) && vm::repair(br) == b && vm::repair(b) == b, "repair");
  br = b;
  std::swap(br.min[k], br.max[k]);
  CHECK(br.is_valid() == (lo[k] == hi[k]) && vm::repair(br) == b, "repair of one component");
  c.op(9);
  c.state(lo, hi, p);
}
MC_INSTANCE("fine_points_d1", (fine_points<double, 1>))
MC_INSTANCE("fine_points_d3", (fine_points<double, 3>))
MC_INSTANCE("fine_points_f2", (fine_points<float, 2>))
MC_INSTANCE("fine_points_d5", (fine_points<double, 5>))
template <class T, std::size_t S> void fine_pairs(Ctx& c) {
  const auto& A = fine_alphabet<T>();
  const std::size_t k = c.choose(S);
  vec<T, S> lo[2], hi[2];
  for (int q = 0; q < 2; ++q) {
    const uint32_t i = c.choose(uint32_t(A.size())), j = i + c.choose(uint32_t(A.size()) - i);
    for (std::size_t x = 0; x < S; ++x) lo[q][x] = T(-7 + q), hi[q][x] = T(9 - q);
    lo[q][k] = A[i], hi[q][k] = A[j];
  }
  const bbox<T, S> a(lo[0], hi[0]), b(lo[1], hi[1]);
  NOTE("boxes ", bs(a), bs(b));
  const T al = lo[0][k], ah = hi[0][k], bl = lo[1][k], bh = hi[1][k];
  CHECK(a.contains(b) == (bl >= al && bh <= ah), "contains is ", a.contains(b));
  CHECK(a.encloses(b) == (bl > al && bh < ah), "encloses is ", a.encloses(b));
  const bool hit = std::max(al, bl) <= std::min(ah, bh);
  CHECK(a.intersects(b) == hit && b.intersects(a) == hit, "intersects is ", a.intersects(b), b.intersects(a));
  const auto m = vm::merge(a, b), x = vm::intersect(a, b);
  CHECK(m.min[k] == std::min(al, bl) && m.max[k] == std::max(ah, bh), "merge gives ", bs(m));
  CHECK(x.min[k] == (hit ? std::max(al, bl) : T(0)) && x.max[k] == (hit ? std::min(ah, bh) : T(0)), "intersect gives ", bs(x));
  for (std::size_t i = 0; i < S; ++i)
    if (i != k) CHECK(m.min[i] == T(-7) && m.max[i] == T(9) && x.min[i] == (hit ? T(-6) : T(0)) && x.max[i] == (hit ? T(8) : T(0)), "other components of ", bs(m), " or ", bs(x));
  const bool eq = S == 1 && al == bl && ah == bh;
  CHECK((a == b) == eq && (a != b) == !eq, "== is ", a == b);
  bbox<T, S> d = a;
  d.min[k] = bl, d.max[k] = bh;
  const bool same = al == bl && ah == bh;
  CHECK((a == d) == same && (a != d) == !same && vm::is_equal(a, d, T(0)) == same, "== of boxes that differ in one component is ", a == d);
  c.op(9);
  c.state(lo[0], hi[0], lo[1], hi[1]);
}
MC_INSTANCE("fine_pairs_d1", (fine_pairs<double, 1>))
MC_INSTANCE("fine_pairs_d3", (fine_pairs<double, 3>))
MC_INSTANCE("fine_pairs_f2", (fine_pairs<float, 2>))
MC_INSTANCE("fine_pairs_d4", (fine_pairs<double, 4>), 0, 0, true)
// sizes, centers and traversals at every scale
template <class T> void scaled_values(Ctx& c) {
  const T s = T(std::ldexp(1.0, c.range(-40, 40)));
  static const std::vector<std::pair<T, T>> I{{T(0), T(1)}, {T(-3), T(5)}, {T(2), T(66)}, {T(-5), T(-4)}};
  auto b = box<T, 3>(c, I);
  for (int i = 0; i < 3; ++i) b.min[i] *= s, b.max[i] *= s;
  NOTE("box ", bs(b));
  CHECK(b.size() == b.max - b.min && b.center() == (b.min + b.max) / T(2), "size or center");
  CHECK(b.volume() == (b.max[0] - b.min[0]) * (b.max[1] - b.min[1]) * (b.max[2] - b.min[2]), "volume ", b.volume());
  CHECK(!b.is_empty() && b.is_valid(), "empty or invalid");
  const auto e = b.expand(s * T(0.25));
  for (int i = 0; i < 3; ++i) CHECK(e.min[i] == b.min[i] - s / 4 && e.max[i] == b.max[i] + s / 4, "expand gives ", bs(e));
  const auto t = b.translate(vec<T, 3>(s, -s, 2 * s));
  for (int i = 0; i < 3; ++i) CHECK(t.min[i] == b.min[i] + (i == 0 ? s : i == 1 ? -s : 2 * s) && t.max[i] == b.max[i] + (i == 0 ? s : i == 1 ? -s : 2 * s), "translate gives ", bs(t));
  unsigned seen = 0;
  int n = 0;
  b.for_each_vertex([&](const vec<T, 3>& v) {
    int k = 0;
    for (int i = 0; i < 3; ++i) {
      if (v[i] == b.max[i]) k |= 1 << i;
      else CHECK(v[i] == b.min[i], "vertex ", v, " is no corner");
    }
    seen |= 1u << k, ++n;
  });
  CHECK(seen == 255 && n == 8, "vertices");
  auto m = mat<T, 4, 4>::identity();
  m[0][0] = T(0), m[0][1] = T(2), m[1][0] = T(-1), m[1][1] = T(0), m[3][2] = s;
  const auto r = b.transform(m);
  CHECK(r.min[0] == -b.max[1] && r.max[0] == -b.min[1] && r.min[1] == 2 * b.min[0] && r.max[1] == 2 * b.max[0] && r.min[2] == b.min[2] + s && r.max[2] == b.max[2] + s, "transform gives ", bs(r));
  c.op(7);
  c.state(b.min, b.max);
}
MC_INSTANCE("scaled_values_d", (scaled_values<double>))
