// C25  Bezier surfaces interpolate their control grid
// mc-flags: -O2 ubsan
// mc-assume: parameters between 0 and 1
#include "mc.hpp"
#include <vecmath/bezier_surface.h>
#include <vecmath/vec.h>
using mc::Ctx;
using vm::vec;
using R = long double;
template <class T, std::size_t C> using Grid = std::array<std::array<vec<T, C>, 3>, 3>;

static R bern(int i, R x) { return i == 0 ? (1 - x) * (1 - x) : i == 1 ? 2 * x * (1 - x) : x * x; }

template <class T, std::size_t C> void verify(Ctx& c, const Grid<T, C>& g, T u, T v, R scale) {
  const R tol = (sizeof(T) == 4 ? 4e-6L : 1e-14L) * scale;
  const auto s = vm::evaluate_quadratic_bezier_surface(g, u, v);
  Grid<T, C> tr, mu, mv;
  for (std::size_t i = 0; i < 3; ++i)
    for (std::size_t j = 0; j < 3; ++j) tr[j][i] = g[i][j], mu[i][2 - j] = g[i][j], mv[2 - i][j] = g[i][j];
  const auto a = vm::evaluate_quadratic_bezier_surface(tr, v, u);
  const auto b = vm::evaluate_quadratic_bezier_surface(mu, T(1) - u, v);
  const auto d = vm::evaluate_quadratic_bezier_surface(mv, u, T(1) - v);
  for (std::size_t k = 0; k < C; ++k) {
    R want = 0, lo = 1e30L, hi = -1e30L;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        const R x = g[std::size_t(i)][std::size_t(j)][k];
        want += bern(i, v) * bern(j, u) * x;
        lo = std::fmin(lo, x), hi = std::fmax(hi, x);
      }
    CHECK(std::fabs(s[k] - want) <= tol, "component ", k, " at ", u, ",", v, " is ", s[k], ", should be ", want);
    if (u >= T(0) && u <= T(1) && v >= T(0) && v <= T(1)) CHECK(s[k] >= lo - tol && s[k] <= hi + tol, "component ", k, " at ", u, ",", v, " is ", s[k], ", outside of the control points");
    CHECK(std::fabs(a[k] - s[k]) <= tol, "transposed grid: ", a[k], " vs ", s[k]);
    CHECK(std::fabs(b[k] - s[k]) <= tol && std::fabs(d[k] - s[k]) <= tol, "reversed grid: ", b[k], " and ", d[k], " vs ", s[k]);
  }
  const bool cu = u == T(0) || u == T(1), cv = v == T(0) || v == T(1);
  if (cu && cv) CHECK(s == g[v == T(1) ? 2 : 0][u == T(1) ? 2 : 0], "corner ", u, ",", v, " is ", s);
  c.op(4);
}
template <class T> std::vector<T> params(Ctx& c) {
  std::vector<T> r;
  const int n = c.tiered(8, 16);
  for (int i = 0; i <= n; ++i) r.push_back(T(i) / T(n));
  for (T x : {T(0.1), T(0.3), T(2) / T(3), T(0.99)}) r.push_back(x);
  return r;
}
// all grids of numbers of a small alphabet
template <class T> void scalars(Ctx& c) {
  static const std::vector<T> A{T(-1.1), T(0), T(3.3)};
  Grid<T, 1> g;
  for (auto& row : g)
    for (auto& p : row) p[0] = c.pick(A);
  NOTE("grid ", g[0][0], g[0][1], g[0][2], g[1][0], g[1][1], g[1][2], g[2][0], g[2][1], g[2][2]);
  const auto P = params<T>(c);
  for (T u : P)
    for (T v : P) verify<T, 1>(c, g, u, v, 4);
  c.state(g[0][0], g[0][1], g[0][2], g[1][0], g[1][1], g[1][2], g[2][0], g[2][1], g[2][2]);
}
MC_INSTANCE("scalars_d", (scalars<double>))
MC_INSTANCE("scalars_f", (scalars<float>))
// grids of points with up to k control points displaced, and their images under affine maps
template <class T, std::size_t C> void points(Ctx& c) {
  static const std::vector<T> OFF{T(5.1), T(-0.7), T(1000.3)};
  static const std::vector<T> SC{T(1), T(-2), T(0)};
  Grid<T, C> g, h;
  const int base = c.range(0, 2);
  for (std::size_t i = 0; i < 3; ++i)
    for (std::size_t j = 0; j < 3; ++j)
      for (std::size_t k = 0; k < C; ++k) g[i][j][k] = base == 0 ? T(0) : base == 1 ? T(k % 3 == 0 ? int(i) : k % 3 == 1 ? int(j) : int(i * j)) * T(8) : T(1 << (i + 3 * j)) / T(k + 1);
  uint64_t hs = 0;
  for (auto& row : g)
    for (auto& p : row) {
      const uint32_t d = c.dev(1 + 3 * C);
      if (d) p[(d - 1) / 3] += OFF[(d - 1) % 3];
      Ctx::add(hs, p);
    }
  const T sc = c.pick(SC), sh = c.flag() ? T(7) : T(0);
  const bool shear = C > 1 && c.flag();
  const auto aff = [&](vec<T, C> x) {
    for (std::size_t k = 0; k < C; ++k) x[k] = x[k] * sc + sh * T(k + 1);
    if (shear) x[0] += x[C - 1];
    return x;
  };
  for (std::size_t i = 0; i < 3; ++i)
    for (std::size_t j = 0; j < 3; ++j) h[i][j] = aff(g[i][j]);
  NOTE("grid ", g[0][0], g[0][1], g[0][2], g[1][0], g[1][1], g[1][2], g[2][0], g[2][1], g[2][2]);
  static const std::vector<std::pair<int, int>> UV{{0, 0}, {4, 0}, {0, 4}, {4, 4}, {1, 0}, {0, 3}, {2, 2}, {1, 3}, {3, 1}, {4, 1}};
  for (auto [a, b] : UV) {
    const T u = T(a) / T(4), v = T(b) / T(4);
    verify<T, C>(c, g, u, v, 4000);
    const auto x = aff(vm::evaluate_quadratic_bezier_surface(g, u, v)), y = vm::evaluate_quadratic_bezier_surface(h, u, v);
    for (std::size_t k = 0; k < C; ++k) CHECK(std::fabs(R(x[k]) - y[k]) <= (sizeof(T) == 4 ? 0.05L : 1e-10L), "affine image: ", y, " vs ", x);
    c.op(2);
  }
  c.state(hs, sc, sh, shear);
}
MC_INSTANCE("points_d3", (points<double, 3>), 2, 3)
MC_INSTANCE("points_f3", (points<float, 3>), 2, 3)
MC_INSTANCE("points_d2", (points<double, 2>), 2, 3)
MC_INSTANCE("points_d5", (points<double, 5>), 1, 2)

// outside of the unit square the surface is the same polynomial
template <class T, std::size_t C> void outside(Ctx& c) {
  static const std::vector<R> P{-3, -1, -0.5L, -0.001L, 0, 0.25L, 1, 1.001L, 1.5L, 2, 10};
  Grid<T, C> g;
  for (auto& row : g)
    for (auto& p : row)
      for (std::size_t k = 0; k < C; ++k) p[k] = T(int((&row - &g[0]) * 3 + (&p - &row[0])) % 4) - T(k);
  const uint32_t a = c.choose(9), b = c.choose(9);
  const T m = T(c.pick(std::vector<R>{1, -7, 100}));
  g[a / 3][a % 3][C - 1] += m;
  g[b / 3][b % 3][0] -= m;
  const T u = T(c.pick(P)), v = T(c.pick(P));
  NOTE("grid ", g[0][0], g[0][1], g[0][2], g[1][0], g[1][1], g[1][2], g[2][0], g[2][1], g[2][2]);
  const R su = 1 + std::fabs(R(u)), sv = 1 + std::fabs(R(v));
  verify<T, C>(c, g, u, v, 200 * su * su * sv * sv);
  c.state(a, b, m, u, v);
}
MC_INSTANCE("outside_d3", (outside<double, 3>))
MC_INSTANCE("outside_f2", (outside<float, 2>))
MC_INSTANCE("outside_d1", (outside<double, 1>))

// every control point alone, at many magnitudes and at finer parameters: each weight is the product of its two polynomials
template <class T> void weights(Ctx& c) {
  static const std::vector<R> M{1, -3.1L, 1.1e-6L, 4096.7L, 1.3e8L};
  const std::size_t i = c.choose(3), j = c.choose(3);
  const T m = T(c.pick(M));
  const int n = c.tiered(32, 128);
  std::vector<T> P;
  for (int k = 0; k <= n; ++k) P.push_back(T(k) / T(n));
  for (R x : {1e-3L, 1e-5L, 1 - 1e-3L, 1 - 1e-5L, 1 / 3.0L, 0.4999L, 0.5001L}) P.push_back(T(x));
  Grid<T, 3> g;
  for (auto& row : g)
    for (auto& p : row) p = vec<T, 3>::zero();
  g[i][j] = vec<T, 3>{m, -m, m / 2};
  NOTE("control point ", i, ",", j, " = ", g[i][j]);
  for (T u : P)
    for (T v : P) verify<T, 3>(c, g, u, v, std::fabs(R(m)));
  c.state(i, j, m);
}
MC_INSTANCE("weights_d", (weights<double>))
MC_INSTANCE("weights_f", (weights<float>))
// all pairs of control points, so that terms that mix two of them are seen; the others are non-zero
template <class T, std::size_t C> void pairs(Ctx& c) {
  static const std::vector<R> M{0, 7.1L, -250.3L, 0.1L};
  const std::size_t a = c.choose(9), b = c.choose(9);
  if (b <= a) return c.skip();
  const T base = T(c.pick(std::vector<R>{0, 1, -16})), ma = T(c.pick(M)), mb = T(c.pick(M));
  const std::size_t ka = c.choose(C), kb = c.choose(C);
  Grid<T, C> g;
  for (auto& row : g)
    for (auto& p : row) p = vec<T, C>::fill(base);
  g[a / 3][a % 3][ka] += ma;
  g[b / 3][b % 3][kb] += mb;
  NOTE("control points ", a, " ", b, " displaced by ", ma, " ", mb);
  static const std::vector<R> P{0, 0.0625L, 0.2L, 0.5L, 0.7L, 0.96875L, 1};
  for (R u : P)
    for (R v : P) verify<T, C>(c, g, T(u), T(v), 300);
  c.state(a, b, base, ma, mb, ka, kb);
}
MC_INSTANCE("pairs_d2", (pairs<double, 2>))
MC_INSTANCE("pairs_d3", (pairs<double, 3>))
MC_INSTANCE("pairs_f3", (pairs<float, 3>))
MC_INSTANCE("pairs_f1", (pairs<float, 1>))
