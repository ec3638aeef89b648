// C14  view and projection matrices map the view volume to clip space
// mc-flags: -O2 ubsan
// mc-assume: 0 < near < far, 0 < fov < 180 degrees, positive viewport sizes, nonempty orthographic boxes, unit view direction with a perpendicular unit up vector
#include "mc.hpp"
#include "ref.hpp"
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
using mc::Ctx;
using vm::mat;
using vm::vec;
using namespace ref;

template <class T> constexpr R rtol() { return sizeof(T) == 4 ? 3e-5L : 1e-12L; }
template <class T> vec<T, 3> tv(V3 p) { return vec<T, 3>{T(p.x), T(p.y), T(p.z)}; }

template <class T> struct Clip {
  R x, y, z, w;
};
// reference application of the elements
template <class T> Clip<T> clip(const mat<T, 4, 4>& m, V3 p) {
  R o[4];
  for (int r = 0; r < 4; ++r) o[r] = (R)m[0][r] * p.x + (R)m[1][r] * p.y + (R)m[2][r] * p.z + (R)m[3][r];
  return {o[0], o[1], o[2], o[3]};
}

template <class T> void perspective(Ctx& c) {
  static const std::vector<R> FOV{90, 60, 1, 30, 45, 75, 100, 120, 135, 150, 179};
  static const std::vector<std::pair<R, R>> NF{{1, 2}, {1.1L, 1000.3L}, {0.5L, 64}, {0.125L, 8192}, {16, 17}, {1, 65536}, {100.1L, 300.7L}, {3, 4096.5L}};
  static const std::vector<int> SZ{1, 480, 640, 768, 1024, 1080, 1920, 1999, 7680, 40000, 100003};
  static const std::vector<R> FR{-1, 0, 1, 0.6L, -0.3L};
  const R fov = c.pick(FOV);
  const auto nf = c.pick(NF);
  const int w = c.pick(SZ), h = c.pick(SZ);
  const R n = nf.first, f = nf.second;
  const auto m = vm::perspective_matrix(T(fov), T(n), T(f), w, h);
  NOTE("perspective fov ", fov, " near ", n, " far ", f, " viewport ", w, " x ", h);
  // half extents per unit of depth
  const R tv_ = std::tan(fov * PI / 360) * 0.75L, th = tv_ * w / h;
  const R e = rtol<T>();
  for (R sx : FR)
    for (R sy : FR) {
      for (R t : {R(0), R(1), R(0.5L)}) {
        const R d = n + (f - n) * t;
        const V3 p{sx * th * d, sy * tv_ * d, -d};
        const auto q = clip(m, p);
        CHECK(mc::close(q.w, d, e, 1e-30L), "clip w of a point at depth ", d, " is ", q.w);
        CHECK(mc::close(q.x / q.w, sx, e), "point ", str(p), " has x ", q.x / q.w, " in clip space, should be ", sx);
        CHECK(mc::close(q.y / q.w, sy, e), "point ", str(p), " has y ", q.y / q.w, " in clip space, should be ", sy);
        const R z = (f + n) / (f - n) - 2 * f * n / ((f - n) * d); // -1 at near, +1 at far
        CHECK(mc::close(q.z / q.w, z, e * f / (f - n)), "point at depth ", d, " has clip depth ", q.z / q.w, ", should be ", z);
        // the library's own product divides by w
        const V3 g = from(m * tv<T>(p));
        CHECK(near(g, {sx, sy, z}, 8 * e * f / (f - n)), "m * ", str(p), " is ", str(g), ", should be ", str({sx, sy, z}));
        c.op(2);
      }
    }
  // order along the depth is preserved
  const R z1 = clip(m, {0, 0, -(n + (f - n) / 4)}).z / (n + (f - n) / 4), z2 = clip(m, {0, 0, -(n + (f - n) / 2)}).z / (n + (f - n) / 2);
  CHECK(z1 < z2 && z1 > -1 && z2 < 1, "depth order");
  c.state(T(fov), T(n), T(f), w, h);
}
MC_INSTANCE("perspective_d", (perspective<double>))
MC_INSTANCE("perspective_f", (perspective<float>))

template <class T> void ortho(Ctx& c) {
  static const std::vector<std::pair<R, R>> NF{{0, 1}, {1, 2}, {1.1L, 1000.3L}, {-64.1L, 64.3L}, {-1, 0.5L}, {0.125L, 8192}};
  static const std::vector<std::pair<R, R>> EX{{-1, 1}, {0.1L, 640.3L}, {-320, 320}, {-3.3L, 5.7L}, {100.1L, 101.3L}, {-1024, -512}, {-0.5L, 0.25L}, {7, -9}};
  static const std::vector<R> FR{0, 1, 0.6L, 0.3L, 2};
  const auto nf = c.pick(NF), lr = c.pick(EX), bt = c.pick(EX);
  const R n = nf.first, f = nf.second, l = lr.first, r = lr.second, b = bt.first, t = bt.second;
  const auto m = vm::ortho_matrix(T(n), T(f), T(l), T(t), T(r), T(b));
  NOTE("ortho near ", n, " far ", f, " left ", l, " right ", r, " bottom ", b, " top ", t);
  const R sc = 1 + std::fmax(std::fabs((l + r) / (r - l)), std::fmax(std::fabs((t + b) / (t - b)), std::fabs((f + n) / (f - n))));
  const R e = 4 * rtol<T>() * sc;
  for (R x : FR)
    for (R y : FR)
      for (R z : FR) {
        const V3 p{l + (r - l) * x, b + (t - b) * y, -(n + (f - n) * z)};
        const V3 want{2 * x - 1, 2 * y - 1, 2 * z - 1};
        const auto q = clip(m, p);
        CHECK(q.w == 1, "clip w is ", q.w);
        CHECK(near({q.x, q.y, q.z}, want, e), "point ", str(p), " is taken to ", str({q.x, q.y, q.z}), ", should be ", str(want));
        const V3 g = from(m * tv<T>(p));
        CHECK(near(g, want, e), "m * ", str(p), " is ", str(g), ", should be ", str(want));
        c.op(2);
      }
  c.state(T(n), T(f), T(l), T(r), T(b), T(t));
}
MC_INSTANCE("ortho_d", (ortho<double>))
MC_INSTANCE("ortho_f", (ortho<float>))

template <class T> void view(Ctx& c) {
  const int B = c.tiered(2, 3);
  const V3 d0{R(c.range(-B, B)), R(c.range(-B, B)), R(c.range(-B, B))};
  if (len(d0) == 0) return c.skip();
  const int roll = c.range(0, 11);
  const V3 d = unit(d0), up = rotate(perp(d), d, roll * PI / 6), right = cross(d, up);
  const auto m = vm::view_matrix(tv<T>(d), tv<T>(up));
  NOTE("view direction ", str(d), " up ", str(up));
  const R e = rtol<T>();
  const auto lin = [&](V3 p) {
    const auto q = clip(m, p);
    CHECK(q.w == 1, "a view matrix has w ", q.w);
    CHECK(near(from(m * tv<T>(p)), {q.x, q.y, q.z}, 100 * e * (1 + len(p))), "m * p differs from its elements");
    c.op();
    return V3{q.x, q.y, q.z};
  };
  CHECK(near(lin({0, 0, 0}), {0, 0, 0}, 0), "the origin is moved");
  CHECK(near(lin(d), {0, 0, -1}, e), "view direction becomes ", str(lin(d)));
  CHECK(near(lin(up), {0, 1, 0}, e), "up vector becomes ", str(lin(up)));
  CHECK(near(lin(right), {1, 0, 0}, e), "right vector becomes ", str(lin(right)));
  const std::vector<V3> P{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 2, -3}, {-64, 32, 16}};
  for (V3 p : P)
    for (V3 q : P) CHECK(mc::close(dist(lin(p), lin(q)), dist(p, q), 4 * e, 100), "distances are not preserved");
  // a camera placed with a translation
  const V3 eye{3, -5, 11};
  const auto cam = m * vm::translation_matrix(-tv<T>(eye));
  CHECK(near(from(cam * tv<T>(eye)), {0, 0, 0}, 100 * e), "the eye does not become the origin");
  CHECK(near(from(cam * tv<T>(eye + d * 10 + up * 2)), {0, 2, -10}, 200 * e), "camera space position");
  c.state(tv<T>(d), tv<T>(up));
}
MC_INSTANCE("view_d", (view<double>))
MC_INSTANCE("view_f", (view<float>))

// one parameter at a time over its whole range
template <class T> void sweep(Ctx& c) {
  R fov = 90, n = 1, f = 4096;
  int w = 1024, h = 768;
  switch (c.choose(4)) {
  case 0: fov = R(c.range(1, 719)) / 4, w = c.flag() ? 1024 : 300; break;
  case 1: w = c.range(1, c.tiered(2000, 16000)); break;
  case 2: h = c.range(1, c.tiered(2000, 16000)), fov = 60; break;
  default: n = std::pow(2.0L, c.range(-16, 12)), f = n * (1 + std::pow(2.0L, c.range(-6, 16))), fov = c.flag() ? 90 : 100;
  }
  const auto m = vm::perspective_matrix(T(fov), T(n), T(f), w, h);
  NOTE("perspective fov ", fov, " near ", n, " far ", f, " viewport ", w, " x ", h);
  const R y = std::tan(fov * PI / 360) * 0.75L, x = y * w / h, e = rtol<T>() * 2, ez = e * f / (f - n);
  for (R d : {n, f, (n + f) / 2}) {
    const auto q = clip(m, {x * d, -y * d, -d});
    CHECK(mc::close(q.w, d, e, 1e-30L) && mc::close(q.x / q.w, 1, e) && mc::close(q.y / q.w, -1, e), "the edge of the view volume at depth ", d, " is mapped to ", q.x / q.w, " ", q.y / q.w);
    CHECK(mc::close(q.z / q.w, (f + n) / (f - n) - 2 * f * n / ((f - n) * d), ez), "depth ", d, " is mapped to ", q.z / q.w);
  }
  c.op(3);
  c.state(T(fov), T(n), T(f), w, h);
}
MC_INSTANCE("sweep_d", (sweep<double>))
MC_INSTANCE("sweep_f", (sweep<float>))
template <class T> void ortho_sweep(Ctx& c) {
  // centre and extent of every range, over many magnitudes
  R lo[3], hi[3];
  const int one = c.choose(3);
  for (int i = 0; i < 3; ++i) {
    const R s = i == one ? std::pow(2.0L, c.range(-10, 14)) : 320, k = i == one ? R(c.range(-4, 4)) / 2 : -0.5L;
    lo[i] = s * k, hi[i] = lo[i] + s;
    if (i == one && c.flag()) std::swap(lo[i], hi[i]);
  }
  const auto m = vm::ortho_matrix(T(lo[2]), T(hi[2]), T(lo[0]), T(hi[1]), T(hi[0]), T(lo[1]));
  NOTE("ortho near ", lo[2], " far ", hi[2], " left ", lo[0], " right ", hi[0], " bottom ", lo[1], " top ", hi[1]);
  for (int k = 0; k < 8; ++k) {
    const auto q = clip(m, {k & 1 ? hi[0] : lo[0], k & 2 ? hi[1] : lo[1], -(k & 4 ? hi[2] : lo[2])});
    const V3 want{k & 1 ? 1.0L : -1.0L, k & 2 ? 1.0L : -1.0L, k & 4 ? 1.0L : -1.0L};
    CHECK(q.w == 1 && near({q.x, q.y, q.z}, want, 32 * rtol<T>()), "corner ", str(want), " is taken to ", str({q.x, q.y, q.z}));
  }
  c.op(8);
  c.state(T(lo[0]), T(hi[0]), T(lo[1]), T(hi[1]), T(lo[2]), T(hi[2]));
}
MC_INSTANCE("ortho_sweep_d", (ortho_sweep<double>))
MC_INSTANCE("ortho_sweep_f", (ortho_sweep<float>))
// view directions close to the axes and a full circle of directions
template <class T> void view_near(Ctx& c) {
  V3 d;
  if (c.flag()) {
    d = {0, 0, 0};
    const int ax = c.choose(3);
    const R e = std::pow(10.0L, -c.range(1, sizeof(T) == 4 ? 5 : 9)) * (c.flag() ? 1 : -1);
    d[ax] = c.flag() ? 1 : -1, d[(ax + 1) % 3] = e, d[(ax + 2) % 3] = c.flag() ? e / 2 : 0;
  } else {
    const R a = c.range(0, c.tiered(71, 359)) * 2 * PI / c.tiered(72, 360), b = c.range(-8, 8) * PI / 17;
    d = {std::cos(a) * std::cos(b), std::sin(a) * std::cos(b), std::sin(b)};
  }
  d = unit(d);
  const V3 up = rotate(perp(d), d, c.range(0, 7) * 0.81L), right = cross(d, up);
  const auto m = vm::view_matrix(tv<T>(d), tv<T>(up));
  NOTE("view direction ", str(d), " up ", str(up));
  const auto at = [&](V3 p) { const auto q = clip(m, p); return V3{q.x, q.y, q.z}; };
  const R e = rtol<T>();
  CHECK(near(at(d), {0, 0, -1}, e) && near(at(up), {0, 1, 0}, e) && near(at(right), {1, 0, 0}, e), "direction, up and right become ", str(at(d)), str(at(up)), str(at(right)));
  c.op();
  c.state(tv<T>(d), tv<T>(up));
}
MC_INSTANCE("view_near_d", (view_near<double>))
MC_INSTANCE("view_near_f", (view_near<float>))
