// C16  accumulated bounds equal the bounds of everything added
// mc-flags: -O2 asan
// mc-assume: the added boxes are valid (min <= max in every component)
#include "mc.hpp"
#include <list>
#include <vecmath/bbox.h>
#include <vecmath/vec.h>
using mc::Ctx;
using vm::bbox;
using vm::vec;

// reference: plain interval per component
template <class T, std::size_t S> struct Model {
  bool any = false;
  T lo[S], hi[S];
  void add(const vec<T, S>& p) {
    for (std::size_t i = 0; i < S; ++i) {
      if (!any || p[i] < lo[i]) lo[i] = p[i];
      if (!any || p[i] > hi[i]) hi[i] = p[i];
    }
    any = true;
  }
};
template <class T, std::size_t S> void agree(Ctx& c, const typename bbox<T, S>::builder& b, const Model<T, S>& m, const char* when) {
  CHECK(b.initialized() == m.any, "initialized() is ", b.initialized(), " ", when, ", should be ", m.any);
  const auto x = b.bounds();
  for (std::size_t i = 0; i < S; ++i) {
    const T lo = m.any ? m.lo[i] : T(0), hi = m.any ? m.hi[i] : T(0);
    CHECK(x.min[i] == lo && x.max[i] == hi, "bounds ", when, " are ", x.min, " ", x.max, ", component ", i, " should be ", lo, " ", hi);
  }
}
template <class T, std::size_t S> vec<T, S> point(Ctx& c) {
  static const std::vector<T> A{T(0), T(1.1), T(-2.3), T(5)};
  vec<T, S> p;
  for (std::size_t i = 0; i < S; ++i) p[i] = c.pick(A);
  return p;
}
// a small set of points that still separates all components
template <class T, std::size_t S> vec<T, S> few(Ctx& c) {
  static const std::vector<T> A{T(0), T(1.1), T(-2.3), T(5), T(-7.7), T(64.1)};
  const uint32_t k = c.choose(6);
  vec<T, S> p;
  for (std::size_t i = 0; i < S; ++i) p[i] = A[(k * (i + 1) + i) % A.size()] + T(i);
  return p;
}

// all histories of operations on one builder
template <class T, std::size_t S> void history(Ctx& c) {
  typename bbox<T, S>::builder b;
  Model<T, S> m;
  agree<T, S>(c, b, m, "before anything was added");
  const int n = c.tiered(3, 4);
  for (int k = 0; k < n; ++k) {
    const uint32_t op = c.choose(7);
    switch (op) {
    case 0: { // nothing more
      k = n;
      break;
    }
    case 1: {
      const auto p = few<T, S>(c);
      NOTE("add ", p);
      b.add(p);
      m.add(p);
      break;
    }
    case 2: {
      const auto p = few<T, S>(c), q = few<T, S>(c);
      vec<T, S> lo, hi;
      for (std::size_t i = 0; i < S; ++i) lo[i] = std::min(p[i], q[i]), hi[i] = std::max(p[i], q[i]);
      NOTE("add box ", lo, hi);
      b.add(bbox<T, S>(lo, hi));
      m.add(lo);
      m.add(hi);
      break;
    }
    case 3: { // empty range
      const std::vector<vec<T, S>> v;
      NOTE("add empty range");
      b.add(v.begin(), v.end());
      break;
    }
    case 4: { // range of points
      std::list<vec<T, S>> v{few<T, S>(c), few<T, S>(c)};
      NOTE("add points ", v);
      b.add(v.begin(), v.end());
      for (auto& p : v) m.add(p);
      break;
    }
    case 5: { // projected range of points
      const std::vector<std::pair<int, vec<T, S>>> v{{1, few<T, S>(c)}, {2, vec<T, S>::fill(T(3))}};
      NOTE("add projected points ", v[0].second, v[1].second);
      b.add(v.begin(), v.end(), [](const auto& x) { return x.second * T(2); });
      for (auto& p : v) m.add(p.second * T(2));
      break;
    }
    case 6: { // range of boxes
      const auto p = few<T, S>(c);
      const std::vector<bbox<T, S>> v{bbox<T, S>(p, p + vec<T, S>::fill(T(1))), bbox<T, S>(p - vec<T, S>::fill(T(3)), p)};
      NOTE("add boxes at ", p);
      b.add(v.begin(), v.end());
      for (auto& x : v) m.add(x.min), m.add(x.max);
      break;
    }
    }
    c.op();
    agree<T, S>(c, b, m, "after the history");
    uint64_t h = 0;
    if (m.any) for (std::size_t i = 0; i < S; ++i) Ctx::add(h, m.lo[i]), Ctx::add(h, m.hi[i]);
    c.state(h);
  }
}
MC_INSTANCE("history_d3", (history<double, 3>))
MC_INSTANCE("history_f2", (history<float, 2>))
MC_INSTANCE("history_d1", (history<double, 1>))
MC_INSTANCE("history_i3", (history<int, 3>))

// every list of points: adding one by one, as a range, in any order, merging at once
template <class T, std::size_t S, int N> void lists(Ctx& c) {
  std::vector<vec<T, S>> v(1 + c.choose(N));
  for (auto& p : v) p = point<T, S>(c);
  NOTE("points ", v);
  Model<T, S> m;
  typename bbox<T, S>::builder one, all, rev, grouped;
  for (auto& p : v) {
    m.add(p);
    one.add(p);
    agree<T, S>(c, one, m, "after adding a prefix one by one");
  }
  all.add(v.begin(), v.end());
  rev.add(v.rbegin(), v.rend());
  for (auto& p : v) {
    typename bbox<T, S>::builder sub;
    sub.add(p);
    grouped.add(sub.bounds());
  }
  agree<T, S>(c, all, m, "after adding the range");
  agree<T, S>(c, rev, m, "after adding the reversed range");
  agree<T, S>(c, grouped, m, "after adding the point boxes");
  const auto a = bbox<T, S>::merge_all(v.begin(), v.end());
  std::vector<std::size_t> idx;
  for (std::size_t i = 0; i < v.size(); ++i) idx.push_back(i);
  const auto g = bbox<T, S>::merge_all(idx.begin(), idx.end(), [&](std::size_t i) { return v[i]; });
  for (std::size_t i = 0; i < S; ++i) {
    CHECK(a.min[i] == m.lo[i] && a.max[i] == m.hi[i], "merge_all gives ", a.min, a.max);
    CHECK(g.min[i] == m.lo[i] && g.max[i] == m.hi[i], "merge_all with a projection gives ", g.min, g.max);
  }
  c.op(6);
  uint64_t h = 0;
  for (auto& p : v) Ctx::add(h, p);
  c.state(h);
}
MC_INSTANCE("lists_d1", (lists<double, 1, 6>))
MC_INSTANCE("lists_d2", (lists<double, 2, 4>))
MC_INSTANCE("lists_d3", (lists<double, 3, 3>))
MC_INSTANCE("lists_f3", (lists<float, 3, 3>))
MC_INSTANCE("lists_d4", (lists<double, 4, 2>))

// long sequences: one element beyond all the others, at every position and in every direction
template <class T, std::size_t S> void long_lists(Ctx& c) {
  static const std::vector<int> N{1, 2, 3, 5, 8, 9, 16, 17, 33, 64, 65, 128, 129, 257, 1000};
  const int n = c.pick(N);
  const std::size_t k = c.choose(S);
  const bool high = c.flag();
  static const std::vector<int> OFF{0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256};
  const int o = c.pick(OFF), at = c.flag() ? o : n - 1 - o;
  if (at < 0 || at >= n) return c.skip();
  const bool boxes = c.flag(), second = c.flag();
  std::vector<vec<T, S>> v;
  for (int i = 0; i < n; ++i) {
    vec<T, S> p;
    for (std::size_t x = 0; x < S; ++x) p[x] = T((i * 7 + int(x) * 5) % 11 - 5);
    v.push_back(p);
  }
  v[std::size_t(at)][k] = high ? T(100) : T(-100);
  if (second) v[std::size_t(n - 1 - at)][S - 1 - k] = high ? T(-200) : T(200); // and one the other way
  Model<T, S> m;
  typename bbox<T, S>::builder one, all, bx;
  std::vector<bbox<T, S>> b;
  for (auto& p : v) {
    m.add(p);
    if (boxes) {
      const auto q = p + vec<T, S>::fill(T(high ? 0 : 1));
      m.add(q);
      b.push_back(bbox<T, S>(p, q));
      one.add(b.back());
    } else one.add(p);
  }
  if (boxes) all.add(b.begin(), b.end());
  else all.add(v.begin(), v.end());
  NOTE("one element of ", n, " stands out at ", at, " component ", k);
  agree<T, S>(c, one, m, "after adding one by one");
  agree<T, S>(c, all, m, "after adding the range");
  if (!boxes) {
    const auto a = bbox<T, S>::merge_all(v.begin(), v.end());
    const std::list<vec<T, S>> l(v.begin(), v.end());
    const auto g = bbox<T, S>::merge_all(l.begin(), l.end(), [](const vec<T, S>& p) { return -p; });
    for (std::size_t i = 0; i < S; ++i) {
      CHECK(a.min[i] == m.lo[i] && a.max[i] == m.hi[i], "merge_all gives ", a.min, a.max);
      CHECK(g.min[i] == -m.hi[i] && g.max[i] == -m.lo[i], "merge_all with a projection gives ", g.min, g.max);
    }
  }
  c.op(4);
  c.state(n, at, k, high, boxes, second);
}
MC_INSTANCE("long_lists_d3", (long_lists<double, 3>))
MC_INSTANCE("long_lists_f2", (long_lists<float, 2>))
MC_INSTANCE("long_lists_i1", (long_lists<int, 1>))
// values that differ by little, and extreme ones
template <class T, std::size_t S> void extremes(Ctx& c) {
  using L = std::numeric_limits<T>;
  static const std::vector<T> A{T(0), T(1), std::nextafter(T(1), T(2)), T(1) + T(1e-5), T(1.0009), T(-1), std::nextafter(T(-1), T(-2)), T(-1) - T(1e-5), L::denorm_min(), -L::denorm_min(), L::min(), L::max(), L::lowest(), L::infinity(), -L::infinity(), T(1e-9), T(-1e-9)};
  const std::size_t k = c.choose(S);
  const int n = c.range(1, c.tiered(3, 4));
  Model<T, S> m;
  typename bbox<T, S>::builder b, r, ab;
  std::vector<vec<T, S>> v;
  for (int i = 0; i < n; ++i) {
    auto p = vec<T, S>::fill(T(2));
    p[k] = c.pick(A);
    v.push_back(p);
    m.add(p);
    b.add(p);
    ab.add(bbox<T, S>(p, p));
    agree<T, S>(c, b, m, "after the points");
    agree<T, S>(c, ab, m, "after the point boxes");
  }
  r.add(v.rbegin(), v.rend());
  agree<T, S>(c, r, m, "after the reversed range");
  const auto a = bbox<T, S>::merge_all(v.begin(), v.end());
  for (std::size_t i = 0; i < S; ++i) CHECK(a.min[i] == m.lo[i] && a.max[i] == m.hi[i], "merge_all of ", v, " gives ", a.min, a.max);
  c.op(4);
  uint64_t h = 0;
  for (auto& p : v) Ctx::add(h, p);
  c.state(h);
}
MC_INSTANCE("extremes_d3", (extremes<double, 3>))
MC_INSTANCE("extremes_f2", (extremes<float, 2>))
MC_INSTANCE("extremes_d1", (extremes<double, 1>))
