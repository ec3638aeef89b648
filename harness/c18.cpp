// C18  polygons are kept in canonical rotation and compared consistently
// mc-flags: -O2 asan
// mc-assume: the vertices of a polygon are pairwise different (except where stated), epsilon variants are asked of vertices whose first coordinates are well separated
#include "mc.hpp"
#include "ref.hpp"
#include <algorithm>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/polygon.h>
using mc::Ctx;
using ref::R;
using vm::mat;
using vm::polygon;
using vm::vec;

template <class T, std::size_t S> using List = std::vector<vec<T, S>>;
template <class T, std::size_t S> int lex(const vec<T, S>& a, const vec<T, S>& b) {
  for (std::size_t i = 0; i < S; ++i)
    if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
template <class T, std::size_t S> bool eq(const List<T, S>& a, const List<T, S>& b) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (lex(a[i], b[i]) != 0) return false;
  return true;
}
template <class T, std::size_t S> List<T, S> canon(List<T, S> v) {
  if (v.empty()) return v;
  std::size_t m = 0;
  for (std::size_t i = 1; i < v.size(); ++i)
    if (lex(v[i], v[m]) < 0) m = i;
  List<T, S> r;
  for (std::size_t i = 0; i < v.size(); ++i) r.push_back(v[(m + i) % v.size()]);
  return r;
}
template <class T, std::size_t S> List<T, S> reversed(List<T, S> v) { // reversed cyclic order, canonical
  std::reverse(v.begin(), v.end());
  return canon<T, S>(v);
}
template <class T, std::size_t S> const List<T, S>& pool() {
  static const List<T, S> P = [] {
    // several points share leading components so that all components matter
    static const T X[6][4] = {{0, 0, 0, 0}, {0, 0, 1, -1}, {0, 1, 0, 2}, {-1, 5, 3, 0}, {2, 0, -1, 7}, {2, 3, 4, -1}};
    List<T, S> r;
    for (auto& x : X) {
      vec<T, S> v;
      for (std::size_t i = 0; i < S; ++i) v[i] = x[S == 2 ? (i == 0 ? 0 : 3) : i];
      r.push_back(v);
    }
    return r;
  }();
  return P;
}
// a list of n different vertices of the first k of the pool
template <class T, std::size_t S> List<T, S> distinct(Ctx& c, int n, int k) {
  std::vector<int> left;
  for (int i = 0; i < k; ++i) left.push_back(i);
  List<T, S> v;
  for (int i = 0; i < n; ++i) {
    const uint32_t j = c.choose(uint32_t(left.size()));
    v.push_back(pool<T, S>()[std::size_t(left[j])]);
    left.erase(left.begin() + j);
  }
  return v;
}
template <class T, std::size_t S> void is(Ctx& c, const polygon<T, S>& p, const List<T, S>& w, const char* how) {
  CHECK((eq<T, S>(p.vertices(), w)), how, " stores ", p.vertices(), ", should store ", w);
  CHECK(p.vertexCount() == w.size(), how, ": vertexCount is ", p.vertexCount());
  c.op();
}

template <class T, std::size_t S> void single(Ctx& c) {
  const int n = c.range(0, c.tiered(5, 6));
  const auto v = distinct<T, S>(c, n, 6);
  const auto w = canon<T, S>(v);
  NOTE("vertices ", v);
  const polygon<T, S> p(v), q(List<T, S>{v});
  is<T, S>(c, p, w, "construction from a list");
  is<T, S>(c, q, w, "construction from an rvalue");
  is<T, S>(c, polygon<T, S>(p), w, "copy construction");
  polygon<T, S> as;
  is<T, S>(c, as, {}, "default construction");
  as = p;
  is<T, S>(c, as, w, "assignment");
  if (n == 1) is<T, S>(c, polygon<T, S>{v[0]}, w, "construction from an initializer list");
  if (n == 2) is<T, S>(c, polygon<T, S>{v[0], v[1]}, w, "construction from an initializer list");
  if (n == 3) is<T, S>(c, polygon<T, S>{v[0], v[1], v[2]}, w, "construction from an initializer list");
  if (n == 4) is<T, S>(c, polygon<T, S>{v[0], v[1], v[2], v[3]}, w, "construction from an initializer list");
  // rotations of the list are equal, and the other cyclic order is the inverse
  auto r = v;
  for (int i = 0; i < n; ++i) {
    std::rotate(r.begin(), r.begin() + 1, r.end());
    CHECK((polygon<T, S>(r) == p && vm::compare(polygon<T, S>(r), p) == 0), "a rotation of the vertices is a different polygon");
  }
  is<T, S>(c, p.invert(), reversed<T, S>(v), "inversion");
  CHECK(p.invert().invert() == p, "inverting twice");
  CHECK(vm::compareUnoriented(p, p.invert()) == 0, "a polygon and its inverse differ ignoring the orientation");
  // iteration
  List<T, S> fw(p.begin(), p.end()), bw(p.rbegin(), p.rend());
  CHECK((eq<T, S>(fw, w)), "iteration yields ", fw);
  std::reverse(bw.begin(), bw.end());
  CHECK((eq<T, S>(bw, w)), "reverse iteration does not yield the vertices in reverse order");
  // membership
  for (auto& x : pool<T, S>()) {
    bool in = false;
    for (auto& y : v) in = in || lex(x, y) == 0;
    CHECK(p.hasVertex(x) == in, "hasVertex ", x, " is ", p.hasVertex(x));
    auto x2 = x;
    x2[S - 1] += T(0.5);
    CHECK(!p.hasVertex(x2), "hasVertex ", x2);
  }
  if (n > 0) {
    const auto ce = p.center();
    for (std::size_t i = 0; i < S; ++i) {
      R s = 0;
      for (auto& x : v) s += x[i];
      CHECK(mc::close(ce[i], s / n, mc::tol<T>()), "center is ", ce);
    }
  }
  // translation and transformation, also if they change which vertex is the smallest
  vec<T, S> d;
  for (std::size_t i = 0; i < S; ++i) d[i] = T(int(i) * 3 - 1);
  auto t = v;
  for (auto& x : t)
    for (std::size_t i = 0; i < S; ++i) x[i] += d[i];
  is<T, S>(c, p.translate(d), canon<T, S>(t), "translation");
  for (unsigned sg = 0; sg < (1u << S); ++sg) {
    for (std::size_t rot = 0; rot < S; ++rot) {
      auto m = mat<T, S + 1, S + 1>::identity();
      t = v;
      for (std::size_t i = 0; i < S; ++i) {
        m[i][i] = 0;
        m[i][(i + rot) % S] = sg & (1u << i) ? T(-1) : T(1);
        m[S][i] = d[i];
      }
      for (std::size_t k = 0; k < t.size(); ++k)
        for (std::size_t i = 0; i < S; ++i) t[k][(i + rot) % S] = (sg & (1u << i) ? -v[k][i] : v[k][i]) + d[(i + rot) % S];
      is<T, S>(c, p.transform(m), canon<T, S>(t), "transformation");
    }
  }
  // vertices of a range of polygons
  const std::vector<polygon<T, S>> ps{p, polygon<T, S>(), p.translate(d)};
  List<T, S> out, want = w;
  const auto tw = p.translate(d).vertices();
  want.insert(want.end(), tw.begin(), tw.end());
  polygon<T, S>::get_vertices(ps.begin(), ps.end(), std::back_inserter(out));
  CHECK((eq<T, S>(out, want)), "get_vertices yields ", out);
  c.op(8);
  uint64_t h = 0;
  for (auto& x : v) Ctx::add(h, x);
  c.state(h);
}
MC_INSTANCE("single_d3", (single<double, 3>))
MC_INSTANCE("single_f3", (single<float, 3>))
MC_INSTANCE("single_d2", (single<double, 2>))

// lists with repeated vertices: still some rotation starting at a smallest vertex
template <class T> void repeated(Ctx& c) {
  List<T, 3> v;
  const int n = c.range(0, c.tiered(5, 6));
  for (int i = 0; i < n; ++i) v.push_back(pool<T, 3>()[c.choose(4)]);
  const polygon<T, 3> p(v);
  bool rot = n == 0 && p.vertices().empty();
  auto r = v;
  for (int i = 0; i < n; ++i) {
    rot = rot || eq<T, 3>(r, p.vertices());
    std::rotate(r.begin(), r.begin() + 1, r.end());
  }
  NOTE("vertices ", v);
  CHECK(rot, "stored vertices ", p.vertices(), " are no rotation of ", v);
  for (auto& x : v) CHECK(lex(p.vertices()[0], x) <= 0, "the first vertex of ", p.vertices(), " is not the smallest");
  c.op();
  uint64_t h = 0;
  for (auto& x : v) Ctx::add(h, x);
  c.state(h);
}
MC_INSTANCE("repeated_d", (repeated<double>))

// conversion
template <class T, class U> void converted(Ctx& c) {
  static const std::vector<vec<U, 2>> P{{U(0), U(0)}, {U(1), U(5)}, {U(1 + 1e-9), U(3)}, {U(1 + 2e-9), U(-1)}, {U(3e7 + 1), U(0)}, {U(3e7), U(4)}};
  std::vector<int> left{0, 1, 2, 3, 4, 5};
  const int n = c.range(0, 4);
  List<U, 2> v;
  for (int i = 0; i < n; ++i) {
    const uint32_t j = c.choose(uint32_t(left.size()));
    v.push_back(P[std::size_t(left[j])]);
    left.erase(left.begin() + j);
  }
  const polygon<U, 2> p(v);
  List<T, 2> w;
  for (auto& x : v) w.push_back(vec<T, 2>{T(x[0]), T(x[1])});
  NOTE("vertices ", v);
  is<T, 2>(c, polygon<T, 2>(p), canon<T, 2>(w), "conversion");
  uint64_t h = 0;
  for (auto& x : v) Ctx::add(h, x);
  c.state(h);
}
MC_INSTANCE("converted_fd", (converted<float, double>))
MC_INSTANCE("converted_df", (converted<double, float>))

// comparison of all pairs and triples
template <class T, std::size_t S> const std::vector<polygon<T, S>>& all(int k, int maxn) {
  static std::vector<polygon<T, S>> r;
  if (r.empty()) {
    std::vector<std::vector<int>> ls{{}};
    for (std::size_t i = 0; i < ls.size(); ++i) {
      if ((int)ls[i].size() >= maxn) continue;
      for (int j = 0; j < k; ++j)
        if (std::find(ls[i].begin(), ls[i].end(), j) == ls[i].end()) {
          auto n = ls[i];
          n.push_back(j);
          ls.push_back(n);
        }
    }
    for (auto& l : ls) {
      List<T, S> v;
      for (int j : l) v.push_back(pool<T, S>()[std::size_t(j)]);
      // keep each polygon once
      if (eq<T, S>(canon<T, S>(v), v)) r.push_back(polygon<T, S>(v));
    }
  }
  return r;
}
template <class T, std::size_t S> int cmp(const List<T, S>& a, const List<T, S>& b) {
  for (std::size_t i = 0; i < std::min(a.size(), b.size()); ++i)
    if (int k = lex(a[i], b[i])) return k;
  return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
template <class T, std::size_t S, int K> void order(Ctx& c) {
  const auto& A = all<T, S>(K, 5);
  const auto& x = c.pick(A);
  const auto& y = c.pick(A);
  NOTE("polygons ", x.vertices(), " and ", y.vertices());
  const int w = cmp<T, S>(x.vertices(), y.vertices());
  CHECK(vm::compare(x, y) == w, "compare is ", vm::compare(x, y), ", should be ", w);
  CHECK((x == y) == (w == 0) && (x != y) == (w != 0) && (x < y) == (w < 0) && (x <= y) == (w <= 0) && (x > y) == (w > 0) && (x >= y) == (w >= 0), "relational operators");
  CHECK(vm::isEqual(x, y, T(0)) == (w == 0), "isEqual");
  const int u = vm::compareUnoriented(x, y);
  const bool same = w == 0 || eq<T, S>(reversed<T, S>(x.vertices()), y.vertices());
  CHECK((u == 0) == same, "compareUnoriented is ", u, " for polygons that are ", same ? "equal" : "different", " up to orientation");
  CHECK(vm::compareUnoriented(y, x) == -u, "compareUnoriented is not antisymmetric");
  if (x.vertexCount() != y.vertexCount()) CHECK((u < 0) == (x.vertexCount() < y.vertexCount()), "compareUnoriented: fewer vertices do not come first");
  else if (x.vertexCount() > 0 && lex(x.vertices()[0], y.vertices()[0]) != 0) CHECK((u < 0) == (lex(x.vertices()[0], y.vertices()[0]) < 0), "compareUnoriented: the first vertex does not decide");
  const auto& z = c.pick(A);
  const int uz = vm::compareUnoriented(y, z);
  if (u <= 0 && uz <= 0) CHECK(vm::compareUnoriented(x, z) <= 0, "compareUnoriented is not transitive, third ", z.vertices());
  if (u == 0) CHECK(vm::compareUnoriented(x, z) == uz, "polygons equal up to orientation compare differently with ", z.vertices());
  c.op(12);
  c.state(&x - A.data(), &y - A.data(), &z - A.data());
}
MC_INSTANCE("order_d3", (order<double, 3, 5>))
MC_INSTANCE("order_d2", (order<double, 2, 5>))
MC_INSTANCE("order_f3", (order<float, 3, 6>), 0, 0, true)

// epsilon variants: well separated vertices moved by less or more than epsilon
template <class T> void tolerant(Ctx& c) {
  static const List<T, 3> P{{T(0), T(5), T(-3)}, {T(8), T(5), T(1)}, {T(16), T(-5), T(1)}, {T(24), T(2), T(2)}};
  std::vector<int> perm{0, 1, 2, 3};
  List<T, 3> v, u;
  for (int i = 0; i < 4; ++i) {
    const uint32_t j = c.choose(uint32_t(perm.size()));
    v.push_back(P[std::size_t(perm[j])]);
    perm.erase(perm.begin() + j);
  }
  const bool rev = c.flag();
  u = v;
  // move up to two coordinates
  static const std::vector<T> D{T(0), T(0.125), T(-0.125), T(0.5), T(-0.5)};
  for (int k = 0; k < 2; ++k) {
    const int i = c.range(0, 3), j = c.range(0, 2);
    u[std::size_t(i)][std::size_t(j)] += c.pick(D);
  }
  if (rev) std::reverse(u.begin(), u.end());
  const T e = T(0.25);
  const polygon<T, 3> x(v), y(u);
  // both canonical forms start with the same vertex because the first coordinates are far apart
  const auto within = [&](const List<T, 3>& a, const List<T, 3>& b) {
    for (std::size_t i = 0; i < 4; ++i)
      for (std::size_t j = 0; j < 3; ++j)
        if (a[i][j] < b[i][j] - e) return -1;
        else if (a[i][j] > b[i][j] + e) return 1;
    return 0;
  };
  const auto a = canon<T, 3>(v), b = canon<T, 3>(u), br = reversed<T, 3>(u);
  NOTE("polygons ", v, " and ", u);
  CHECK(vm::compare(x, y, e) == within(a, b), "compare with epsilon is ", vm::compare(x, y, e), ", should be ", within(a, b));
  CHECK(vm::isEqual(x, y, e) == (within(a, b) == 0), "isEqual with epsilon");
  const int un = vm::compareUnoriented(x, y, e);
  CHECK((un == 0) == (within(a, b) == 0 || within(a, br) == 0), "compareUnoriented with epsilon is ", un);
  CHECK(vm::compareUnoriented(y, x, e) == -un, "compareUnoriented with epsilon is not antisymmetric");
  c.op(5);
  uint64_t h = rev;
  for (auto& p : v) Ctx::add(h, p);
  for (auto& p : u) Ctx::add(h, p);
  c.state(h);
}
MC_INSTANCE("tolerant_d", (tolerant<double>))
MC_INSTANCE("tolerant_f", (tolerant<float>))

// many vertices: every length, every starting vertex, every position of one altered vertex
template <class T> void many(Ctx& c) {
  static const std::vector<int> N{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 32, 33, 48, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000};
  const int n = c.pick(N);
  const auto at = [&](int k) { return n <= 24 ? k : k * (n / 8); };
  const int pos = n <= 24 ? c.range(0, n - 1) : std::min(n - 1, at(c.range(0, 8)));
  const int st = n <= 24 ? c.range(0, n - 1) : std::min(n - 1, at(c.range(0, 8)));
  const int comp = c.range(0, 2);
  const T delta = c.pick(std::vector<T>{T(0.25), T(-0.25)});
  List<T, 3> v, u;
  for (int k = 0; k < n; ++k) v.push_back(vec<T, 3>{T(k < n / 2 ? k : n - k), T((k * 7) % n), T(k < n / 2 ? -1 : 1)}); // first coordinates repeat
  u = v;
  u[std::size_t(pos)][std::size_t(comp)] += delta;
  std::rotate(v.begin(), v.begin() + st, v.end());
  NOTE("n=", n, " altered vertex ", pos, " component ", comp, " by ", delta, " starting vertex ", st);
  const polygon<T, 3> x(v), y(u);
  const auto cv = canon<T, 3>(v), cu = canon<T, 3>(u), rv = reversed<T, 3>(v), ru = reversed<T, 3>(u);
  is<T, 3>(c, x, cv, "construction");
  is<T, 3>(c, y, cu, "construction");
  is<T, 3>(c, x.invert(), rv, "inversion");
  is<T, 3>(c, y.invert(), ru, "inversion");
  const int w = cmp<T, 3>(cv, cu);
  CHECK(w != 0 && vm::compare(x, y) == w && vm::compare(y, x) == -w, "compare is ", vm::compare(x, y), vm::compare(y, x), ", should be ", w);
  CHECK(x != y && !(x == y) && (x < y) == (w < 0) && (x > y) == (w > 0) && (x <= y) == (w < 0) && (x >= y) == (w > 0) && !vm::isEqual(x, y, T(0)) && vm::isEqual(x, y, T(0.5)) == (vm::compare(x, y, T(0.5)) == 0), "relational operators");
  const int q = vm::compareUnoriented(x, y);
  CHECK(q != 0 && vm::compareUnoriented(y, x) == -q && vm::compareUnoriented(x.invert(), y) == q && vm::compareUnoriented(x, y.invert()) == q, "compareUnoriented of different polygons is ", q, " and varies with orientation or operand order");
  CHECK(vm::compareUnoriented(x, x.invert()) == 0 && vm::compareUnoriented(x.invert(), x) == 0 && vm::compare(x, polygon<T, 3>(v)) == 0, "a polygon differs from its inverse ignoring orientation");
  for (auto& p : v) CHECK(x.hasVertex(p) && !x.hasVertex(p + vec<T, 3>{T(0), T(0), T(0.25)}), "hasVertex ", p);
  const auto ce = x.center();
  for (std::size_t i = 0; i < 3; ++i) {
    R s = 0;
    for (auto& p : v) s += p[i];
    CHECK(mc::close(ce[i], s / n, mc::tol<T>(), 16), "center of ", n, " vertices is ", ce, ", component ", i, " should be ", s / n);
  }
  const vec<T, 3> d{T(-3), T(64), T(0.5)};
  auto t = v;
  for (auto& p : t) p = vec<T, 3>{p[0] + d[0], p[1] + d[1], p[2] + d[2]};
  is<T, 3>(c, x.translate(d), canon<T, 3>(t), "translation");
  t = v;
  for (auto& p : t) p = vec<T, 3>{p[2], -p[0], -p[1]};
  mat<T, 4, 4> m = mat<T, 4, 4>::zero();
  m[2][0] = 1, m[0][1] = -1, m[1][2] = -1, m[3][3] = 1;
  is<T, 3>(c, x.transform(m), canon<T, 3>(t), "transformation");
  is<T, 3>(c, polygon<T, 3>(polygon<float, 3>(x)), cv, "conversion");
  List<T, 3> out, want = cv;
  want.insert(want.end(), cu.begin(), cu.end());
  const std::vector<polygon<T, 3>> ps{x, y};
  polygon<T, 3>::get_vertices(ps.begin(), ps.end(), std::back_inserter(out));
  CHECK((eq<T, 3>(out, want)), "get_vertices");
  const List<T, 3> fw(x.begin(), x.end());
  List<T, 3> bw(x.rbegin(), x.rend());
  std::reverse(bw.begin(), bw.end());
  CHECK((eq<T, 3>(fw, cv) && eq<T, 3>(bw, cv)), "iteration");
  c.op(16);
  c.state(n, pos, st, comp, delta);
}
MC_INSTANCE("many_d", (many<double>))
MC_INSTANCE("many_f", (many<float>))

// exact canonical start and order for vertices that differ by very little or very much
template <class T> void fine(Ctx& c) {
  using L = std::numeric_limits<T>;
  static const std::vector<T> A{T(0), L::denorm_min(), T(1), std::nextafter(T(1), T(2)), std::nextafter(T(1), T(0)), T(1) + T(1e-5), T(1) + T(1e-3), T(-1e-9), T(1e15), std::nextafter(T(1e15), T(0)), L::max(), L::lowest()};
  const int n = c.range(2, 3);
  const bool second = c.flag();
  List<T, 2> v;
  for (int i = 0; i < n; ++i) {
    const T a = c.pick(A);
    const vec<T, 2> p = second ? vec<T, 2>{T(1), a} : vec<T, 2>{a, T(5 - i)};
    for (auto& q : v)
      if (lex(p, q) == 0) return c.skip();
    v.push_back(p);
  }
  NOTE("vertices ", v);
  const polygon<T, 2> x(v);
  const auto cv = canon<T, 2>(v);
  is<T, 2>(c, x, cv, "construction");
  is<T, 2>(c, x.invert(), reversed<T, 2>(v), "inversion");
  for (std::size_t i = 0; i < v.size(); ++i)
    for (std::size_t j = 0; j < 2; ++j) {
      auto u = v;
      u[i][j] = std::nextafter(u[i][j], T(2));
      const polygon<T, 2> y(u);
      const auto cu = canon<T, 2>(u);
      const int w = cmp<T, 2>(cv, cu);
      CHECK(vm::compare(x, y) == w && vm::compare(y, x) == -w && (x == y) == (w == 0) && (x != y) == (w != 0) && (x < y) == (w < 0) && (x <= y) == (w <= 0) && (x > y) == (w > 0) && (x >= y) == (w >= 0) && (y < x) == (w > 0) && (y <= x) == (w >= 0) && (y > x) == (w < 0) && (y >= x) == (w <= 0), "compare is ", vm::compare(x, y), ", should be ", w, ", other ", u);
      CHECK((vm::compareUnoriented(x, y) == 0) == (w == 0 || cmp<T, 2>(cv, reversed<T, 2>(u)) == 0), "compareUnoriented is ", vm::compareUnoriented(x, y), ", other ", u);
      CHECK(!(x.hasVertex(u[i])) == std::none_of(v.begin(), v.end(), [&](auto& p) { return lex(p, u[i]) == 0; }), "hasVertex ", u[i]);
    }
  c.op(20);
  uint64_t h = 0;
  for (auto& p : v) Ctx::add(h, p);
  c.state(h);
}
MC_INSTANCE("fine_d", (fine<double>))
MC_INSTANCE("fine_f", (fine<float>))
