// C13  transformation matrices map points exactly as specified
// mc-flags: -O2 ubsan
// mc-assume: scale factors and box sizes are nonzero, coordinate systems are linearly independent, projection directions are unit vectors not parallel to the plane
#include "mc.hpp"
#include "ref.hpp"
#include <vecmath/bbox.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
using mc::Ctx;
using vm::bbox;
using vm::mat;
using vm::vec;
using namespace ref;

template <class T> constexpr R rtol() { return sizeof(T) == 4 ? 1e-4L : 1e-11L; }
template <class T> vec<T, 3> tv(V3 p) { return vec<T, 3>{T(p.x), T(p.y), T(p.z)}; }
static const std::vector<V3> PTS{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1.1L, -2.3L, 3.7L}, {-64.1L, 32.5L, 7.3L}};
static V3 pick3(Ctx& c, const std::vector<R>& A) {
  const R x = c.pick(A), y = c.pick(A), z = c.pick(A);
  return {x, y, z};
}
static const std::vector<R> COORD{0, 1, -2.1L, 3.5L, 64.3L, -7.9L};
static const std::vector<R> NZ{1, -1, 2, 0.3L, -3.7L};
static const std::vector<R> FACT{1, -1, 2, 0.3L, -3.7L, 0};
static const std::vector<R> ZOOM{1, 1.1L / 1024, 4091.7L};

// reference application with homogeneous division
template <class T> V3 app(const mat<T, 4, 4>& m, V3 p) {
  R o[4];
  for (int r = 0; r < 4; ++r) o[r] = (R)m[0][r] * p.x + (R)m[1][r] * p.y + (R)m[2][r] * p.z + (R)m[3][r];
  return {o[0] / o[3], o[1] / o[3], o[2] / o[3]};
}
template <class T> void maps(Ctx& c, const mat<T, 4, 4>& m, V3 p, V3 want, const char* what) {
  R s = 1 + std::fabs(want.x) + std::fabs(want.y) + std::fabs(want.z);
  for (int r = 0; r < 3; ++r) s += std::fabs((R)m[0][r] * p.x) + std::fabs((R)m[1][r] * p.y) + std::fabs((R)m[2][r] * p.z) + std::fabs((R)m[3][r]); // cancellation
  const V3 got = from(m * tv<T>(p));
  CHECK(near(got, want, rtol<T>() * s), what, " takes ", str(p), " to ", str(got), ", should be ", str(want));
  CHECK(near(app(m, p), want, rtol<T>() * s), what, " (elements) takes ", str(p), " to ", str(app(m, p)), ", should be ", str(want));
  CHECK(m[0][3] == T(0) && m[1][3] == T(0) && m[2][3] == T(0), what, " is not affine");
  c.op();
}

template <class T> void translate_scale(Ctx& c) {
  const V3 d = pick3(c, COORD);
  const V3 f = pick3(c, FACT);
  NOTE("delta ", str(d), " factors ", str(f));
  const auto t = vm::translation_matrix(tv<T>(d)), s = vm::scaling_matrix(tv<T>(f));
  const auto ti = vm::translation_matrix(-tv<T>(d));
  for (V3 p : PTS) {
    maps(c, t, p, p + d, "translation");
    maps(c, s, p, {p.x * f.x, p.y * f.y, p.z * f.z}, "scaling");
    maps(c, t * s, p, V3{p.x * f.x, p.y * f.y, p.z * f.z} + d, "translation after scaling");
    maps(c, s * t, p, {(p.x + d.x) * f.x, (p.y + d.y) * f.y, (p.z + d.z) * f.z}, "scaling after translation");
    // directions (w = 0) are not translated
    const auto dir = t * vec<T, 4>{T(p.x), T(p.y), T(p.z), T(0)};
    CHECK(dir[0] == T(p.x) && dir[1] == T(p.y) && dir[2] == T(p.z) && dir[3] == T(0), "a direction was translated");
  }
  CHECK((ti * t == mat<T, 4, 4>::identity()), "translation by -d does not undo translation by d");
  // splitting an affine matrix
  mat<T, 4, 4> a = s;
  a[1][0] = T(2), a[2][1] = T(-1), a[0][2] = T(0.5);
  const auto m = t * a;
  const auto tp = vm::translation_matrix(m), st = vm::strip_translation(m);
  CHECK(tp == t, "translation part of an affine matrix");
  CHECK(st == a, "matrix without its translation");
  CHECK(tp * st == m, "translation and stripped part do not recompose");
  c.op(5);
  c.state(tv<T>(d), tv<T>(f));
}
MC_INSTANCE("translate_scale_d", (translate_scale<double>))
MC_INSTANCE("translate_scale_f", (translate_scale<float>))

// other dimensions
template <class T, std::size_t S> void dims(Ctx& c) {
  vec<T, S> d, f, p;
  for (std::size_t i = 0; i < S; ++i) d[i] = T(c.pick(COORD)), f[i] = T(FACT[(i + 1) % FACT.size()]), p[i] = T(int(i) * 3 - 1);
  const std::size_t h = c.choose(S);
  p[h] = T(11);
  const std::size_t g = c.choose(S);
  f[g] = T(c.pick(FACT));
  const auto t = vm::translation_matrix(d), s = vm::scaling_matrix(f);
  const auto x = t * p, y = s * p;
  for (std::size_t i = 0; i < S; ++i) CHECK(x[i] == p[i] + d[i] && y[i] == p[i] * f[i], "dimension ", S, ": translation or scaling of ", p, " by ", d, f, " gives ", x, y);
  const auto m = t * s;
  CHECK(vm::translation_matrix(m) == t && vm::strip_translation(m) == s, "dimension ", S, ": translation part");
  // any matrix is split into its last column and the rest
  mat<T, S + 1, S + 1> x1;
  for (std::size_t i = 0; i <= S; ++i)
    for (std::size_t j = 0; j <= S; ++j) x1[i][j] = T(int(i * 7 + j * 3 + h) % 11) * T(0.5) + T(2);
  for (std::size_t i = 0; i < S; ++i) x1[S][i] = d[i];
  const auto tr = vm::translation_matrix(x1), st = vm::strip_translation(x1);
  for (std::size_t i = 0; i <= S; ++i)
    for (std::size_t j = 0; j <= S; ++j) {
      const bool last = i == S && j < S;
      CHECK(tr[i][j] == (last ? x1[i][j] : T(i == j)), "translation of a matrix with last element ", x1[S][S], " at column ", i, " row ", j, " is ", tr[i][j]);
      CHECK(st[i][j] == (last ? T(0) : x1[i][j]), "stripped matrix at column ", i, " row ", j, " is ", st[i][j]);
    }
  c.op(6);
  c.state(S, d, h, f);
}
MC_INSTANCE("dims_d1", (dims<double, 1>))
MC_INSTANCE("dims_d2", (dims<double, 2>))
MC_INSTANCE("dims_d4", (dims<double, 4>))
MC_INSTANCE("dims_f2", (dims<float, 2>))

template <class T> void shear_mirror(Ctx& c) {
  static const std::vector<R> A{0, 1, -2.1L, 0.3L, -0.7L};
  R s[6];
  for (auto& x : s) x = c.pick(A);
  NOTE("shear ", s[0], " ", s[1], " ", s[2], " ", s[3], " ", s[4], " ", s[5]);
  const auto m = vm::shear_matrix(T(s[0]), T(s[1]), T(s[2]), T(s[3]), T(s[4]), T(s[5]));
  for (V3 p : PTS) maps(c, m, p, {p.x + s[2] * p.y + s[4] * p.z, s[0] * p.x + p.y + s[5] * p.z, s[1] * p.x + s[3] * p.y + p.z}, "shear");
  for (int a = 0; a < 3; ++a) {
    const auto mm = vm::mirror_matrix<T>(vm::axis::type(a));
    const auto k = a == 0 ? mat<T, 4, 4>::mirror_x() : a == 1 ? mat<T, 4, 4>::mirror_y() : mat<T, 4, 4>::mirror_z();
    for (V3 p : PTS) {
      V3 w = p;
      w[a] = -w[a];
      maps(c, mm, p, w, "mirror");
      maps(c, k, p, w, "mirror constant");
    }
    CHECK((mm * mm == mat<T, 4, 4>::identity()), "mirroring twice");
  }
  c.state(T(s[0]), T(s[1]), T(s[2]), T(s[3]), T(s[4]), T(s[5]));
}
MC_INSTANCE("shear_mirror_d", (shear_mirror<double>))
MC_INSTANCE("shear_mirror_f", (shear_mirror<float>))

static const std::vector<std::pair<V3, V3>> BOXES{{{0, 0, 0}, {1, 1, 1}}, {{-8, -16, 4}, {8, 16, 36}}, {{-3.1L, 2.2L, -5.3L}, {-1.4L, 10.6L, 59.7L}}, {{100, -100, 0}, {101, -90, 64}}, {{-0.5L, -0.25L, -64}, {0.5L, 0.75L, 64}}};
template <class T> bbox<T, 3> mk(const std::pair<V3, V3>& b) { return bbox<T, 3>(tv<T>(b.first), tv<T>(b.second)); }
static V3 corner(const std::pair<V3, V3>& b, int k) { return {k & 1 ? b.second.x : b.first.x, k & 2 ? b.second.y : b.first.y, k & 4 ? b.second.z : b.first.z}; }

template <class T> void boxes(Ctx& c) {
  const R zo = c.pick(ZOOM), zn = c.pick(ZOOM);
  auto o = c.pick(BOXES), n = c.pick(BOXES);
  o.first = o.first * zo, o.second = o.second * zo, n.first = n.first * zn, n.second = n.second * zn;
  NOTE("old ", str(o.first), str(o.second), " new ", str(n.first), str(n.second));
  const auto m = vm::scale_bbox_matrix(mk<T>(o), mk<T>(n));
  for (int k = 0; k < 8; ++k) maps(c, m, corner(o, k), corner(n, k), "box scaling");
  maps(c, m, (o.first + o.second) / 2, (n.first + n.second) / 2, "box scaling (center)");
  const V3 size = n.second - n.first, os = o.second - o.first;
  const int a = c.range(0, 9); // anchor: a corner, the center, or a point outside
  const V3 anchor = a < 8 ? corner(o, a) : a == 8 ? (o.first + o.second) / 2 : V3{7, -7, 3};
  const auto w = vm::scale_bbox_matrix_with_anchor(mk<T>(o), tv<T>(size), tv<T>(anchor));
  maps(c, w, anchor, anchor, "box scaling with anchor (anchor)");
  for (int k = 0; k < 8; ++k) {
    const V3 p = corner(o, k), rel = p - anchor;
    maps(c, w, p, anchor + V3{rel.x * size.x / os.x, rel.y * size.y / os.y, rel.z * size.z / os.z}, "box scaling with anchor");
  }
  c.state(tv<T>(o.first), tv<T>(n.first), a, zo, zn);
}
MC_INSTANCE("boxes_d", (boxes<double>))
MC_INSTANCE("boxes_f", (boxes<float>))

template <class T> void shear_box(Ctx& c) {
  static const std::vector<R> D{0, 1, -16.1L, 2.7L, 0.0007L, -0.6L};
  const R zo = c.pick(ZOOM);
  auto b = c.pick(BOXES);
  b.first = b.first * zo, b.second = b.second * zo;
  const int ax = c.range(0, 2);
  const bool neg = c.flag();
  const V3 d = pick3(c, D) * zo;
  V3 side{};
  side[ax] = neg ? -1 : 1;
  NOTE("box ", str(b.first), str(b.second), " side ", str(side), " delta ", str(d));
  const auto m = vm::shear_bbox_matrix(mk<T>(b), tv<T>(side), tv<T>(d));
  V3 move = d;
  move[ax] = 0;
  for (int k = 0; k < 8; ++k) {
    const bool on = bool(k & (1 << ax)) != neg;
    const V3 p = corner(b, k);
    maps(c, m, p, on ? p + move : p, "box shear");
  }
  c.state(tv<T>(b.first), tv<T>(side), tv<T>(d));
}
MC_INSTANCE("shear_box_d", (shear_box<double>))
MC_INSTANCE("shear_box_f", (shear_box<float>))

template <class T> void coords(Ctx& c) {
  // all integer bases over a small alphabet
  static const std::vector<R> A{0, 1, -1}, B{0, 2, 1};
  const R zo = c.pick(ZOOM);
  const V3 lx = pick3(c, A), ly = pick3(c, B), lz = pick3(c, A);
  if (dot(cross(lx, ly), lz) == 0) return c.skip();
  const V3 x = lx * zo, y = ly * zo, z = lz * zo;
  static const std::vector<R> O{0, -7.1L, 64.3L};
  const R ov = c.pick(O);
  const V3 o{ov, ov / 2, -ov};
  NOTE("x ", str(x), " y ", str(y), " z ", str(z), " o ", str(o));
  const auto m = vm::coordinate_system_matrix(tv<T>(x), tv<T>(y), tv<T>(z), tv<T>(o));
  for (V3 l : PTS) maps(c, m, o + x * l.x + y * l.y + z * l.z, l, "coordinate system");
  const auto [ok, inv] = vm::invert(m);
  CHECK(ok, "coordinate system matrix not invertible");
  for (V3 l : PTS) maps(c, inv, l, o + x * l.x + y * l.y + z * l.z, "inverse coordinate system");
  c.op(2);
  c.state(tv<T>(x), tv<T>(y), tv<T>(z), tv<T>(o));
}
MC_INSTANCE("coords_d", (coords<double>))
MC_INSTANCE("coords_f", (coords<float>))

static V3 dir(Ctx& c, int N) {
  const int x = c.range(-N, N), y = c.range(-N, N), z = c.range(-N, N);
  if (x == 0 && y == 0 && z == 0) {
    c.skip();
    return {};
  }
  return unit(V3{(R)x, (R)y, (R)z});
}
template <class T> void plane_projection(Ctx& c) {
  const V3 n = dir(c, 2);
  if (c.is_skipped()) return;
  const bool orth = c.flag();
  const V3 d = orth ? n : dir(c, c.tiered(1, 2));
  if (c.is_skipped()) return;
  if (std::fabs(dot(n, d)) < 0.1L) return c.skip();
  static const std::vector<R> DI{0, 5.1L, -64.3L};
  const R dist = c.pick(DI);
  NOTE("normal ", str(n), " distance ", dist, " direction ", str(d));
  const auto m = orth ? vm::plane_projection_matrix(T(dist), tv<T>(n)) : vm::plane_projection_matrix(T(dist), tv<T>(n), tv<T>(d));
  const V3 s = perp(n), t = cross(n, s), o = n * dist;
  const R e = rtol<T>() * 1000;
  CHECK(near(from(m * tv<T>(o)), {0, 0, 0}, e), "the plane anchor is not the origin of the projection: ", str(from(m * tv<T>(o))));
  const std::vector<V3> on{o, o + s * 10, o + t * 20, o - s * 3 + t * 7};
  for (V3 p : on) {
    const V3 q = from(m * tv<T>(p));
    CHECK(std::fabs(q.z) <= e, "point ", str(p), " of the plane has depth ", q.z);
    for (V3 p2 : on) CHECK(std::fabs(dist == dist ? ref::dist(q, from(m * tv<T>(p2))) - ref::dist(p, p2) : 0) <= e, "distances in the plane are not preserved");
    for (R k : {1.0L, -8.0L}) {
      const V3 r = from(m * tv<T>(p + d * k));
      CHECK(near(r, q + V3{0, 0, k}, e), "moving along the projection direction by ", k, " moves ", str(q), " to ", str(r));
    }
  }
  c.op(16);
  c.state(tv<T>(n), tv<T>(d), T(dist));
}
MC_INSTANCE("plane_projection_d", (plane_projection<double>))
MC_INSTANCE("plane_projection_f", (plane_projection<float>))

template <class T> void points4(Ctx& c) {
  static const std::vector<V3> P = sizeof(T) == 4 ? std::vector<V3>{{0, 0, 0}, {1, 0, 0}, {0, 2, 0}, {0, 0, -1}, {3, 1, 2}, {64, -64, 32}} : std::vector<V3>{{0, 0, 0}, {1, 0, 0}, {0, 2, 0}, {0, 0, -1}, {3.1L, 1.3L, 2.7L}, {64.1L, -64.3L, 32.7L}};
  V3 in[4], out[4];
  const R zi = sizeof(T) == 4 ? 1 : c.pick(std::vector<R>{1, 0.9L / 8192, 3001.7L}), zo = sizeof(T) == 4 ? 1 : c.pick(std::vector<R>{1, 0.9L / 8192, 3001.7L});
  for (auto& p : in) p = c.pick(P) * zi;
  const V3 a = in[1] - in[0], b = in[2] - in[0], d = in[3] - in[0];
  const bool regular = std::fabs(dot(cross(a, b), d)) > 1e-6L * zi * zi * zi;
  const int rot = c.range(0, 5);
  for (int i = 0; i < 4; ++i) out[i] = V3{P[(i + rot) % 6].y + 1, P[(i + rot) % 6].z, P[(i + rot) % 6].x - 2} * zo;
  const auto m = vm::points_transformation_matrix(tv<T>(in[0]), tv<T>(in[1]), tv<T>(in[2]), tv<T>(in[3]), tv<T>(out[0]), tv<T>(out[1]), tv<T>(out[2]), tv<T>(out[3]));
  NOTE("in ", str(in[0]), str(in[1]), str(in[2]), str(in[3]), " rot ", rot);
  if (!regular) {
    CHECK(std::isnan(m[0][0]), "a transformation is returned for coplanar points");
  } else {
    for (int i = 0; i < 4; ++i) {
      const V3 got = from(m * tv<T>(in[i]));
      CHECK(near(got, out[i], sizeof(T) == 4 ? 0.05L : 1e-8L * zo), "point ", i, " ", str(in[i]), " is taken to ", str(got), ", should be ", str(out[i]));
    }
    CHECK(m[0][3] == T(0) && m[1][3] == T(0) && m[2][3] == T(0) && m[3][3] == T(1), "not affine");
  }
  c.op();
  uint64_t h = rot;
  for (auto& p : in) Ctx::add(h, tv<T>(p));
  c.state(h);
}
MC_INSTANCE("points4_d", (points4<double>))
MC_INSTANCE("points4_f", (points4<float>))

template <class T> void points3(Ctx& c) {
  static const std::vector<V3> P{{0, 0, 0}, {1, 0, 0}, {0, 2, 0}, {0, 0, -1}, {3.1L, 1.3L, 2.7L}, {16.1L, -16.3L, 8.7L}};
  V3 in[3], out[3];
  for (auto& p : in) p = c.pick(P);
  for (auto& p : out) p = c.pick(P);
  const V3 n = cross(in[1] - in[0], in[2] - in[0]), no = cross(out[1] - out[0], out[2] - out[0]);
  if (len(n) < 1e-6L || len(no) < 1e-6L) return c.skip();
  NOTE("in ", str(in[0]), str(in[1]), str(in[2]), " out ", str(out[0]), str(out[1]), str(out[2]));
  const auto m = vm::points_transformation_matrix(tv<T>(in[0]), tv<T>(in[1]), tv<T>(in[2]), tv<T>(out[0]), tv<T>(out[1]), tv<T>(out[2]));
  const R e = sizeof(T) == 4 ? 0.05L : 1e-8L;
  for (int i = 0; i < 3; ++i) {
    const V3 got = from(m * tv<T>(in[i]));
    CHECK(near(got, out[i], e), "point ", i, " ", str(in[i]), " is taken to ", str(got), ", should be ", str(out[i]));
    const V3 up = from(m * tv<T>(in[i] + unit(n)));
    CHECK(near(up, out[i] + unit(no), e), "one unit off the plane at ", str(in[i]), " is taken to ", str(up));
  }
  c.op();
  uint64_t h = 0;
  for (auto& p : in) Ctx::add(h, tv<T>(p));
  for (auto& p : out) Ctx::add(h, tv<T>(p));
  c.state(h);
}
MC_INSTANCE("points3_d", (points3<double>))
MC_INSTANCE("points3_f", (points3<float>))

// applying arbitrary (also projective) matrices to points, lists and arrays of points; row vectors
template <class T, std::size_t S> void apply(Ctx& c) {
  mat<T, S + 1, S + 1> m;
  static const std::vector<R> V{0, 1, -2.1L, 0.3L, 10.7L};
  for (std::size_t k = 0; k <= S; ++k)
    for (std::size_t r = 0; r <= S; ++r) {
      m[k][r] = T(r == k ? 2 : int((k * 3 + r) % 4) - 1);
      const auto d = c.dev(uint32_t(V.size()) + 1);
      if (d) m[k][r] = T(V[d - 1]);
    }
  const bool linear = c.flag(); // without translation and perspective, so that results are as small or large as the points
  if (linear) {
    for (std::size_t i = 0; i < S; ++i) m[S][i] = m[i][S] = T(0);
    m[S][S] = T(1);
  }
  const T z = linear ? T(c.pick(std::vector<R>{1.1e-7L, 3.3e6L})) : T(1);
  vec<T, S> p;
  for (std::size_t i = 0; i < S; ++i) p[i] = T(int(i) * 2 - 1);
  p[c.choose(S)] += T(4);
  p = p * z;
  auto want = [&](const vec<T, S>& v, bool row, bool& ok) {
    R o[S + 1];
    for (std::size_t r = 0; r <= S; ++r) {
      o[r] = row ? m[r][S] : m[S][r];
      for (std::size_t k = 0; k < S; ++k) o[r] += (R)(row ? m[r][k] : m[k][r]) * v[k];
    }
    ok = std::fabs(o[S]) > 1e-3L;
    std::array<R, S> q{};
    for (std::size_t i = 0; i < S; ++i) q[i] = o[i] / o[S];
    return q;
  };
  auto agree = [&](const vec<T, S>& got, const std::array<R, S>& w) {
    for (std::size_t i = 0; i < S; ++i)
      if (!mc::close(got[i], w[i], rtol<T>(), z)) return false;
    return true;
  };
  NOTE("p ", p);
  std::vector<vec<T, S>> l{p, -p, p * T(3)};
  std::array<vec<T, S>, 3> ar{l[0], l[1], l[2]};
  const std::vector<vec<T, S>> ml = m * l, lm = l * m;
  const std::array<vec<T, S>, 3> ma = m * ar, am = ar * m;
  CHECK(ml.size() == 3 && lm.size() == 3, "list length");
  for (std::size_t i = 0; i < 3; ++i) {
    bool ok;
    const auto w = want(l[i], false, ok);
    if (ok) CHECK(agree(m * l[i], w) && agree(ml[i], w) && agree(ma[i], w), "matrix * point ", l[i], " = ", m * l[i], ml[i], ma[i], ", should be ", w);
    const auto v = want(l[i], true, ok);
    if (ok) CHECK(agree(l[i] * m, v) && agree(lm[i], v) && agree(am[i], v), "point * matrix ", l[i], " = ", l[i] * m, lm[i], am[i], ", should be ", v);
  }
  c.op(8);
  uint64_t h = S;
  for (std::size_t k = 0; k <= S; ++k) Ctx::add(h, m[k]);
  c.state(h, p);
}
MC_INSTANCE("apply_d3", (apply<double, 3>), 2, 3)
MC_INSTANCE("apply_f3", (apply<float, 3>), 1, 2)
MC_INSTANCE("apply_d2", (apply<double, 2>), 2, 3)
MC_INSTANCE("apply_d1", (apply<double, 1>), 2, 3)

// lists of points of every length up to a bound, each element mapped like the single point
template <class T, std::size_t S> void apply_lists(Ctx& c) {
  mat<T, S + 1, S + 1> m;
  for (std::size_t k = 0; k <= S; ++k)
    for (std::size_t r = 0; r <= S; ++r) m[k][r] = T(r == k ? 2 : int((k * 3 + r) % 4) - 1);
  const bool projective = c.flag();
  if (!projective)
    for (std::size_t k = 0; k <= S; ++k) m[k][S] = T(k == S ? 1 : 0);
  else
    m[S][S] = T(64);
  const std::size_t n = c.choose(40);
  std::vector<vec<T, S>> l(n);
  for (std::size_t k = 0; k < n; ++k)
    for (std::size_t i = 0; i < S; ++i) l[k][i] = T(int((k * 5 + i * 2) % 13)) - T(6);
  if (n) l[c.choose(uint32_t(n))] = vec<T, S>::fill(T(c.pick(std::vector<R>{0, 20, -0.5L})));
  const auto keep = l;
  const auto ml = m * l, lm = l * m;
  CHECK(ml.size() == n && lm.size() == n, "list length");
  for (std::size_t k = 0; k < n; ++k) {
    const auto p = m * keep[k], q = keep[k] * m;
    for (std::size_t i = 0; i < S; ++i) CHECK(mc::same(ml[k][i], p[i]) && mc::same(lm[k][i], q[i]), "element ", k, " of ", n, " is mapped to ", ml[k], lm[k], ", the point alone to ", p, q);
  }
  c.op(2);
  c.state(projective, l);
}
MC_INSTANCE("apply_lists_d3", (apply_lists<double, 3>))
MC_INSTANCE("apply_lists_f2", (apply_lists<float, 2>))
// linear maps of lists of vectors of the full size, and of lists through non-square matrices, are in C09

// --- skewed arguments: components in every order of size and with every sign -------------------------------------
template <class T> void skewed(Ctx& c) {
  static const std::vector<std::array<V3, 4>> Q{{V3{0, 0, 0}, {1, 0, 0}, {0, 2, 0}, {0, 0, 3}}, {V3{1, 2, -1}, {-2, 0.5L, 1}, {3, 1, 4}, {0, -5, 2}}};
  static const std::vector<V3> OFF{{0, 0, 0}, {7.3L, -5.1L, 2.9L}};
  const Frame& f = c.pick(frames());
  const int kind = c.choose(4);
  const V3 o = c.pick(OFF);
  if (kind < 2) { // three and four points onto others
    const auto &a = c.pick(Q), &b = c.pick(Q);
    const Frame& g = frames()[(c.choose(6) * 7 + 3) % 48];
    V3 in[4], out[4];
    for (int i = 0; i < 4; ++i) in[i] = f(a[i]) + o, out[i] = g(b[i]) * 1.7L - o;
    NOTE("in ", str(in[0]), str(in[1]), str(in[2]), str(in[3]), " out ", str(out[0]), str(out[1]), str(out[2]), str(out[3]));
    const R e = sizeof(T) == 4 ? 0.01L : 1e-9L;
    if (kind == 0) {
      const auto m = vm::points_transformation_matrix(tv<T>(in[0]), tv<T>(in[1]), tv<T>(in[2]), tv<T>(in[3]), tv<T>(out[0]), tv<T>(out[1]), tv<T>(out[2]), tv<T>(out[3]));
      for (int i = 0; i < 4; ++i) CHECK(near(from(m * tv<T>(in[i])), out[i], e), "point ", i, " is taken to ", m * tv<T>(in[i]), ", should be ", str(out[i]));
    } else {
      const auto m = vm::points_transformation_matrix(tv<T>(in[0]), tv<T>(in[1]), tv<T>(in[2]), tv<T>(out[0]), tv<T>(out[1]), tv<T>(out[2]));
      const V3 n = unit(cross(in[1] - in[0], in[2] - in[0])), no = unit(cross(out[1] - out[0], out[2] - out[0]));
      for (int i = 0; i < 3; ++i) {
        CHECK(near(from(m * tv<T>(in[i])), out[i], e), "point ", i, " is taken to ", m * tv<T>(in[i]), ", should be ", str(out[i]));
        CHECK(near(from(m * tv<T>(in[i] + n)), out[i] + no, e), "one unit off the plane at ", str(in[i]), " is taken to ", m * tv<T>(in[i] + n));
      }
    }
    c.op();
    uint64_t h = kind;
    for (int i = 0; i < 4; ++i) Ctx::add(h, tv<T>(in[i])), Ctx::add(h, tv<T>(out[i]));
    c.state(h);
  } else if (kind == 2) { // coordinate systems
    const auto& a = c.pick(Q);
    const V3 x = f(a[1] - a[0]), y = f(a[2] - a[0]), z = f(a[3] - a[0]);
    NOTE("x ", str(x), " y ", str(y), " z ", str(z), " o ", str(o));
    const auto m = vm::coordinate_system_matrix(tv<T>(x), tv<T>(y), tv<T>(z), tv<T>(o));
    for (V3 l : PTS) maps(c, m, o + x * l.x + y * l.y + z * l.z, l, "coordinate system");
    c.state(tv<T>(x), tv<T>(y), tv<T>(z), tv<T>(o));
  } else { // projections onto planes, orthogonal and oblique
    static const std::vector<V3> D{{0, 0, 1}, {0.4L, -0.3L, 1}, {-1, 1.5L, 1}};
    const V3 n = f({0, 0, 1}), d = unit(f(c.pick(D))), s = perp(n), t = cross(n, s);
    const R dist = dot(n, o);
    const bool orth = len(cross(d, n)) < 1e-9L;
    NOTE("normal ", str(n), " distance ", dist, " direction ", str(d));
    const auto m = orth && c.flag() ? vm::plane_projection_matrix(T(dist), tv<T>(n)) : vm::plane_projection_matrix(T(dist), tv<T>(n), tv<T>(d));
    const R e = rtol<T>() * 1000;
    const std::vector<V3> on{n * dist, n * dist + s * 10, n * dist + t * 20, n * dist - s * 3 + t * 7};
    CHECK(near(from(m * tv<T>(on[0])), {0, 0, 0}, e), "the plane anchor is not the origin of the projection: ", m * tv<T>(on[0]));
    for (V3 p : on) {
      const V3 q = from(m * tv<T>(p));
      CHECK(std::fabs(q.z) <= e, "point ", str(p), " of the plane has depth ", q.z);
      for (V3 p2 : on) CHECK(std::fabs(ref::dist(q, from(m * tv<T>(p2))) - ref::dist(p, p2)) <= e, "distances in the plane are not preserved");
      for (R k : {1.0L, -8.0L}) CHECK(near(from(m * tv<T>(p + d * k)), q + V3{0, 0, k}, e), "moving along the projection direction by ", k, " moves ", str(q), " to ", m * tv<T>(p + d * k));
    }
    c.op(16);
    c.state(tv<T>(n), tv<T>(d), T(dist), orth);
  }
}
MC_INSTANCE("skewed_d", (skewed<double>))
MC_INSTANCE("skewed_f", (skewed<float>))
