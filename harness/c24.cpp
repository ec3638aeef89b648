// C24  the convex hull is the true hull in counter-clockwise order
// mc-flags: -O2 asan
// mc-assume: all points lie exactly in one plane and the first two distinct points span a triangle of more than the colinearity tolerance with some third point (or all points are exactly colinear)
#include "mc.hpp"
#include "ref.hpp"
#include <algorithm>
#include <vecmath/convex_hull.h>
#include <vecmath/vec.h>
using mc::Ctx;
using vm::vec;

struct I2 {
  long x, y;
  bool operator==(const I2& o) const { return x == o.x && y == o.y; }
  bool operator<(const I2& o) const { return x < o.x || (x == o.x && y < o.y); }
};
static long orient(I2 a, I2 b, I2 p) { return (b.x - a.x) * (p.y - a.y) - (p.x - a.x) * (b.y - a.y); }
// the extreme points in counter-clockwise order (monotone chain), empty if there is no hull
static std::vector<I2> oracle(std::vector<I2> p) {
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
  if (p.size() < 3) return {};
  std::vector<I2> h(2 * p.size());
  std::size_t k = 0;
  for (std::size_t i = 0; i < p.size(); ++i) {
    while (k >= 2 && orient(h[k - 2], h[k - 1], p[i]) <= 0) --k;
    h[k++] = p[i];
  }
  const std::size_t t = k + 1;
  for (std::size_t i = p.size() - 1; i-- > 0;) {
    while (k >= t && orient(h[k - 2], h[k - 1], p[i]) <= 0) --k;
    h[k++] = p[i];
  }
  h.resize(k - 1);
  if (h.size() < 3) return {};
  return h;
}
struct Basis {
  int o[3], s[3], t[3];
  bool mirror() const { // is (s, t) clockwise seen from the positive side of the dominant axis of the normal?
    const vm::vec<double, 3> n(s[1] * t[2] - s[2] * t[1], s[2] * t[0] - s[0] * t[2], s[0] * t[1] - s[1] * t[0]);
    return n[vm::find_abs_max_component(n)] < 0;
  }
};
static const std::vector<Basis> BASES{
  {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}},
  {{3, -5, 7}, {0, 1, 0}, {0, 0, 1}},
  {{-1, 2, 0}, {0, 0, 1}, {1, 0, 0}},
  {{0, 0, 4}, {0, 1, 0}, {1, 0, 0}},
  {{1, 1, 1}, {1, -1, 0}, {0, 1, -1}},
  {{0, 0, 0}, {2, 0, -1}, {0, 3, -2}},
  {{-100, 200, 50}, {1, 2, 0}, {0, 1, 3}},
  {{5, 0, 0}, {1, 0, 2}, {1, 4, 0}},
};
template <class T> void verify(Ctx& c, const std::vector<I2>& p, const Basis& B, T sc) {
  const auto map = [&](I2 q) {
    vec<T, 3> r;
    for (std::size_t i = 0; i < 3; ++i) r[i] = sc * (T(B.o[i]) + T(B.s[i]) * T(q.x) + T(B.t[i]) * T(q.y));
    return r;
  };
  std::vector<vec<T, 3>> in, want;
  for (I2 q : p) in.push_back(map(q));
  auto h = oracle(p);
  if (B.mirror()) std::reverse(h.begin(), h.end());
  for (I2 q : h) want.push_back(map(q));
  const auto got = vm::convex_hull<T>(in);
  c.op();
  if (got.size() != want.size()) CHECK(false, "hull ", got, " of ", in, ", should have the vertices ", want);
  if (got.empty()) return;
  const auto at = std::find(got.begin(), got.end(), want[0]);
  CHECK(at != got.end(), "hull ", got, " of ", in, " lacks ", want[0]);
  const std::size_t k = std::size_t(at - got.begin());
  for (std::size_t i = 0; i < want.size(); ++i) CHECK(got[(k + i) % got.size()] == want[i], "hull ", got, " of ", in, ", should be (up to rotation) ", want);
}
template <class T, int W, int H, int NQ, int NT> void lattice(Ctx& c) {
  const int n = c.range(0, c.tiered(NQ, NT));
  std::vector<I2> p;
  for (int i = 0; i < n; ++i) {
    const int k = c.range(0, W * H - 1);
    p.push_back({k % W, k / W});
  }
  uint64_t hs = 0;
  for (I2 q : p) Ctx::add(hs, q.x * 16 + q.y);
  for (const Basis& B : BASES) verify<T>(c, p, B, T(1));
  verify<T>(c, p, BASES[5], T(64));
  c.state(hs, n);
}
MC_INSTANCE("lattice33_d", (lattice<double, 3, 3, 6, 7>))
MC_INSTANCE("lattice33_f", (lattice<float, 3, 3, 5, 6>))
MC_INSTANCE("lattice44_d", (lattice<double, 4, 4, 4, 5>))
MC_INSTANCE("lattice23_d", (lattice<double, 2, 3, 6, 8>))

// larger sets: convex curves, filled polygons, long colinear runs, in all rotations, strides and directions
template <class T> void family(Ctx& c) {
  const int kind = c.range(0, 4), m = c.range(3, c.tiered(12, 24));
  std::vector<I2> p;
  if (kind == 0)
    for (int i = 0; i < m; ++i) p.push_back({i, i * i});
  if (kind == 1)
    for (int i = 0; i < m; ++i) p.push_back({i, i * (m - i)}), p.push_back({i, 0});
  if (kind == 2)
    for (int y = 0; y * y < m; ++y)
      for (int x = 0; x < m; ++x) p.push_back({x, y});
  if (kind == 3)
    for (int i = 0; i < m; ++i) p.push_back({2 * i, 3 * i}), p.push_back({i, 3 * m - i}), p.push_back({i % 3, 2});
  if (kind == 4)
    for (int i = 0; i < m; ++i) p.push_back({5 * i, -2 * i}); // colinear
  const std::size_t n = p.size();
  const uint32_t start = c.choose(uint32_t(n)), stride = c.choose(uint32_t(std::min<std::size_t>(n - 1, 6))) + 1;
  const uint32_t dup = c.choose(4);
  // visit every element: walk with the stride, advance on a seen one
  std::vector<I2> q;
  std::vector<bool> seen(n);
  std::size_t at = start;
  for (std::size_t i = 0; i < n; ++i) {
    while (seen[at]) at = (at + 1) % n;
    seen[at] = true;
    q.push_back(p[at]);
    at = (at + stride) % n;
  }
  if (dup == 1) q.insert(q.begin(), q.front());
  if (dup == 2) q.insert(q.begin(), 3, q.front());
  if (dup == 3) q.insert(q.end(), q.begin(), q.begin() + long(n) / 2);
  if (c.flag()) std::reverse(q.begin(), q.end());
  for (const Basis& B : BASES) verify<T>(c, q, B, T(1));
  uint64_t hs = 0;
  for (I2 x : q) Ctx::add(hs, x.x * 4096 + x.y);
  c.state(hs);
}
MC_INSTANCE("family_d", (family<double>))
MC_INSTANCE("family_f", (family<float>))

// every subset of a lattice, in four orders
template <class T, int W, int H> void subsets(Ctx& c) {
  std::vector<I2> p;
  uint32_t mask = 0;
  for (int i = 0; i < W * H; ++i)
    if (c.flag()) p.push_back({i % W, i / W}), mask |= 1u << i;
  const int order = c.range(0, 3);
  if (order & 1) std::reverse(p.begin(), p.end());
  if (order & 2) std::rotate(p.begin(), p.begin() + long(p.size() / 3), p.end()), std::stable_partition(p.begin(), p.end(), [](I2 q) { return q.x % 2 == 0; });
  verify<T>(c, p, BASES[mask % BASES.size()], T(1));
  verify<T>(c, p, BASES[(mask / 8 + 3) % BASES.size()], T(32));
  c.state(mask, order);
}
MC_INSTANCE("subsets44_d", (subsets<double, 4, 4>))
MC_INSTANCE("subsets53_f", (subsets<float, 5, 3>))
MC_INSTANCE("subsets45_d", (subsets<double, 4, 5>), 0, 0, true)
MC_INSTANCE("subsets72_d", (subsets<double, 7, 2>))

// long runs of colinear or equal points before, between or after the points off the line
template <class T> void runs(Ctx& c) {
  const int m = c.tiered(40, 150), n = 2 + c.range(0, m), off = c.range(1, 3), kind = c.range(0, 3);
  static const std::vector<I2> OFF{{3, 5}, {-4, -2}, {1, 9}};
  std::vector<I2> line, q;
  for (int i = 0; i < n; ++i) line.push_back(kind == 0 ? I2{i, 0} : kind == 1 ? I2{2 * (n - i), n - i} : kind == 2 ? I2{0, (i * 7) % n} : I2{i % 2, i % 2});
  const int at = c.range(0, 3);
  const std::size_t cut = at == 0 ? 0 : at == 1 ? line.size() / 2 : at == 2 ? line.size() - 1 : line.size();
  q.assign(line.begin(), line.begin() + long(cut));
  q.insert(q.end(), OFF.begin(), OFF.begin() + off);
  q.insert(q.end(), line.begin() + long(cut), line.end());
  for (const Basis& B : BASES) verify<T>(c, q, B, T(1));
  uint64_t hs = 0;
  for (I2 x : q) Ctx::add(hs, x.x * 4096 + x.y);
  c.state(hs);
}
MC_INSTANCE("runs_d", (runs<double>))
MC_INSTANCE("runs_f", (runs<float>))

// hundreds of points
template <class T> void huge(Ctx& c) {
  static const std::vector<int> N{100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1000};
  const int n = c.pick(N), kind = c.range(0, 4), at = c.range(0, 3);
  std::vector<I2> q;
  if (kind < 2) { // a long colinear run, or copies of two points, and few points off its line
    for (int i = 0; i < n; ++i) q.push_back(kind == 0 ? I2{i, i} : I2{i % 2, 0});
    const std::vector<I2> off{{3, 5}, {n, -7}};
    q.insert(q.begin() + (at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n), off.begin(), off.begin() + (c.flag() ? 2 : 1));
  } else { // a convex curve, a zigzag, a filled square, visited with a stride
    static const std::vector<int> ST{1, 7, 31, 101};
    const int st = ST[std::size_t(at)];
    std::vector<bool> seen(static_cast<std::size_t>(n));
    for (int i = 0, k = 0; i < n; ++i, k = (k + st) % n) {
      while (seen[std::size_t(k)]) k = (k + 1) % n;
      seen[std::size_t(k)] = true;
      q.push_back(kind == 2 ? I2{k, k * k} : kind == 3 ? I2{k, k % 2 ? n + k : -k} : I2{k % 17, k / 17});
    }
    if (c.flag()) std::reverse(q.begin(), q.end());
  }
  for (const Basis& B : BASES) verify<T>(c, q, B, T(1));
  uint64_t hs = 0;
  for (I2 x : q) Ctx::add(hs, x.x), Ctx::add(hs, x.y);
  c.state(hs);
}
MC_INSTANCE("huge_d", (huge<double>))

// scaled sets and sets that mix tiny and large extents
template <class T> void scaled(Ctx& c) {
  static const std::vector<T> SC{T(0.125), T(0.25), T(2), T(1024), T(65536)};
  const T sc = c.pick(SC);
  const int n = c.range(3, 5);
  std::vector<I2> p;
  uint64_t hs = 0;
  for (int i = 0; i < n; ++i) {
    const int k = c.range(0, 8);
    p.push_back({k % 3, k / 3});
    Ctx::add(hs, k);
  }
  for (const Basis& B : BASES) verify<T>(c, p, B, sc);
  c.state(hs, sc);
}
MC_INSTANCE("scaled_d", (scaled<double>))
MC_INSTANCE("scaled_f", (scaled<float>))
static void mixed(Ctx& c) {
  static const std::vector<long> A{0, 1, 2, 8191, 8192};
  const int n = c.range(3, c.tiered(4, 5));
  std::vector<I2> p;
  uint64_t hs = 0;
  for (int i = 0; i < n; ++i) {
    const long x = c.pick(A), y = c.pick(A);
    p.push_back({x, y});
    Ctx::add(hs, x * 16384 + y);
  }
  std::size_t k = 1;
  while (k < p.size() && p[k] == p[0]) ++k;
  long most = 0;
  for (std::size_t i = 1; k < p.size() && i < p.size(); ++i) most = std::max(most, std::labs(orient(p[0], p[k], p[i])));
  if (most < 1024 && !oracle(p).empty()) return c.skip(); // within the tolerance of the colinearity test
  for (std::size_t b : {0, 2, 4, 6}) verify<double>(c, p, BASES[b], 1.0 / 256);
  c.state(hs);
}
MC_INSTANCE("mixed_d", mixed)

// --- skewed planes: normals with components in every order of size and with every sign ------------------------------
template <class T> void skewed(Ctx& c) {
  const int n = c.range(3, c.tiered(4, 5));
  std::vector<I2> p;
  for (int i = 0; i < n; ++i) {
    const int k = c.range(0, 8);
    p.push_back({k % 3 * 2 + k / 3 % 2, k / 3 * 3 - (k == 4)});
  }
  if (p[0] == p[1]) return c.skip();
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      for (int k = 0; k < j; ++k)
        if (orient(p[i], p[j], p[k]) == 0 && !(p[i] == p[j]) && !(p[i] == p[k]) && !(p[j] == p[k])) return c.skip(); // rounding decides
  auto h = oracle(p);
  uint64_t hs = 0;
  for (I2 q : p) Ctx::add(hs, q.x * 16 + q.y);
  for (const ref::Frame& f : ref::frames()) {
    const auto map = [&](I2 q) {
      const ref::V3 v = f({ref::R(q.x) * 1.3L, ref::R(q.y) * 1.3L, 5.7L});
      return vec<T, 3>{T(v.x), T(v.y), T(v.z)};
    };
    const ref::V3 nn = f({0, 0, f.det});
    const int ax = std::fabs(nn.x) >= std::fabs(nn.y) && std::fabs(nn.x) >= std::fabs(nn.z) ? 0 : std::fabs(nn.y) >= std::fabs(nn.z) ? 1 : 2;
    auto w = h;
    if ((nn[ax] < 0)) std::reverse(w.begin(), w.end());
    std::vector<vec<T, 3>> in, want;
    for (I2 q : p) in.push_back(map(q));
    for (I2 q : w) want.push_back(map(q));
    const auto got = vm::convex_hull<T>(in);
    c.op();
    CHECK(got.size() == want.size(), "hull ", got, " of ", in, ", should have the vertices ", want);
    if (got.empty()) continue;
    const auto it = std::find(got.begin(), got.end(), want[0]);
    CHECK(it != got.end(), "hull ", got, " of ", in, " lacks ", want[0]);
    const std::size_t k = std::size_t(it - got.begin());
    for (std::size_t i = 0; i < want.size(); ++i) CHECK(got[(k + i) % got.size()] == want[i], "hull ", got, " of ", in, ", should be (up to rotation) ", want);
  }
  c.state(hs, n);
}
MC_INSTANCE("skewed_d", (skewed<double>))
MC_INSTANCE("skewed_f", (skewed<float>))
