// C11  rotations are rigid and all representations agree
// mc-flags: -O2 ubsan
// mc-assume: rotation axes are unit vectors (normalised lattice directions); angles come from a finite grid with tiny, large and near-quarter-turn members
#include "mc.hpp"
#include "ref.hpp"
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/quat.h>
using mc::Ctx;
using vm::mat;
using vm::vec;
using namespace ref;

template <class T> constexpr R rtol() { return sizeof(T) == 4 ? 2e-5L : 1e-12L; }
template <class T> std::vector<T> angles() {
  std::vector<T> a;
  for (int k = -24; k <= 48; ++k) a.push_back(T(k * PI / 12));
  for (R x : {1e-3L, -1e-3L, 1e-6L, 0.1L, 1.0L, 2.0L, -2.5L, 3.0L, 10.0L, 100.0L}) a.push_back(T(x));
  for (R x : {1e-7L, -1e-7L, 1e-4L, -1e-4L, 1e-2L}) {
    a.push_back(T(PI / 2 + x));
    a.push_back(T(-PI / 2 + x));
    a.push_back(T(PI + x));
  }
  return a;
}
template <class T> std::vector<T> coarse() {
  std::vector<T> a;
  for (int k = -6; k <= 6; ++k) a.push_back(T(k * PI / 6));
  for (R x : {1e-3L, 0.7L, -2.2L}) a.push_back(T(x));
  for (R x : {1e-9L, -1e-9L, 1e-6L, 1e-4L, -1e-3L}) {
    a.push_back(T(PI / 2 + x));
    a.push_back(T(-PI / 2 + x));
  }
  return a;
}
static const std::vector<V3> PTS{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -2, 3}, {-5, 0.5L, 2}};

template <class T> V3 col(const mat<T, 4, 4>& m, int k) { return {m[k][0], m[k][1], m[k][2]}; }
template <class T> void check_rigid(Ctx& c, const mat<T, 4, 4>& m, R t, const char* what) {
  for (int i = 0; i < 3; ++i) {
    CHECK(m[i][3] == T(0) && m[3][i] == T(0), what, ": not a pure rotation");
    for (int j = 0; j < 3; ++j) CHECK(std::fabs(dot(col(m, i), col(m, j)) - (i == j)) <= t, what, ": columns not orthonormal");
  }
  CHECK(m[3][3] == T(1), what, ": homogeneous element");
  CHECK(std::fabs(dot(cross(col(m, 0), col(m, 1)), col(m, 2)) - 1) <= t, what, ": determinant is not 1");
}
template <class T> V3 apply(const mat<T, 4, 4>& m, V3 p) { return col(m, 0) * p.x + col(m, 1) * p.y + col(m, 2) * p.z; }
template <class T> vec<T, 3> tv(V3 p) { return vec<T, 3>{T(p.x), T(p.y), T(p.z)}; }

template <class T> V3 axis_choice(Ctx& c) {
  const int N = c.tiered(3, 4);
  const int x = c.range(-N, N), y = c.range(-N, N), z = c.range(-N, N);
  if (x == 0 && y == 0 && z == 0) {
    c.skip();
    return {};
  }
  return unit(V3{(R)x, (R)y, (R)z});
}

template <class T> void axis_angle(Ctx& c) {
  static const auto A = angles<T>();
  const V3 u = axis_choice<T>(c);
  if (c.is_skipped()) return;
  const T a = c.pick(A);
  const auto ax = tv<T>(u);
  NOTE("axis ", str(u), " angle ", a);
  const auto m = vm::rotation_matrix(ax, a);
  check_rigid(c, m, rtol<T>() * 4, "rotation_matrix(axis, angle)");
  for (V3 p : PTS) {
    const V3 want = rotate(p, u, a);
    CHECK(near(apply(m, p), want, rtol<T>() * 16), "rotation_matrix(", str(u), ", ", a, ") takes ", str(p), " to ", str(apply(m, p)), ", should be ", str(want));
    const auto q = m * tv<T>(p);
    CHECK(near(from(q), want, rtol<T>() * 16), "matrix * point disagrees");
  }
  CHECK(near(apply(m, u), u, rtol<T>() * 4), "the axis is not fixed");
  const auto inv = vm::rotation_matrix(ax, -a);
  const auto id = inv * m;
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) CHECK(std::fabs(id[i][j] - (i == j)) <= rtol<T>() * 8, "rotation by -a does not undo rotation by a");
  // the quaternion gives the same matrix
  const vm::quat<T> q(ax, a);
  const auto qm = vm::rotation_matrix(q);
  check_rigid(c, qm, rtol<T>() * 8, "rotation_matrix(quat)");
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) CHECK(std::fabs((R)qm[i][j] - m[i][j]) <= rtol<T>() * 8, "quaternion and axis/angle matrices differ at ", i, ",", j, " for axis ", str(u), " angle ", a);
  c.op(4);
  c.state(ax, a);
}
MC_INSTANCE("axis_angle_d", (axis_angle<double>))
MC_INSTANCE("axis_angle_f", (axis_angle<float>))

// same axis: angles add up
template <class T> void additive(Ctx& c) {
  static const auto A = coarse<T>();
  const V3 u = axis_choice<T>(c);
  if (c.is_skipped()) return;
  const T a = c.pick(A), b = c.pick(A);
  const auto ax = tv<T>(u);
  NOTE("axis ", str(u), " angles ", a, " ", b);
  const auto p = vm::rotation_matrix(ax, a) * vm::rotation_matrix(ax, b), s = vm::rotation_matrix(ax, a + b);
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) CHECK(std::fabs((R)p[i][j] - s[i][j]) <= rtol<T>() * 8, "R(a) R(b) != R(a+b) for axis ", str(u), " angles ", a, " ", b);
  c.op(3);
  c.state(ax, a, b);
}
MC_INSTANCE("additive_d", (additive<double>))
MC_INSTANCE("additive_f", (additive<float>))

template <class T> void euler(Ctx& c) {
  static const auto A = coarse<T>();
  const T roll = c.pick(A), pitch = c.pick(A), yaw = c.pick(A);
  NOTE("roll ", roll, " pitch ", pitch, " yaw ", yaw);
  const auto m = vm::rotation_matrix(roll, pitch, yaw);
  check_rigid(c, m, rtol<T>() * 8, "rotation_matrix(roll, pitch, yaw)");
  for (V3 p : PTS) {
    const V3 want = rotate(rotate(rotate(p, {1, 0, 0}, roll), {0, 1, 0}, pitch), {0, 0, 1}, yaw);
    CHECK(near(apply(m, p), want, rtol<T>() * 16), "rotation_matrix(", roll, ", ", pitch, ", ", yaw, ") takes ", str(p), " to ", str(apply(m, p)), ", should be ", str(want));
  }
  const auto e = vm::rotation_matrix_to_euler_angles(m);
  CHECK(!vm::is_nan(e), "euler angles of the rotation ", roll, " ", pitch, " ", yaw, " are ", e);
  CHECK(std::fabs(e[1]) <= PI / 2 + rtol<T>(), "pitch out of range: ", e);
  const auto back = vm::rotation_matrix(e[0], e[1], e[2]);
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) CHECK(std::fabs((R)back[i][j] - m[i][j]) <= (sizeof(T) == 4 ? 2e-3L : 1e-7L), "rotation ", roll, " ", pitch, " ", yaw, " is rebuilt from its euler angles ", e, " as a different rotation: element row ", j, " col ", i, " is ", back[i][j], " instead of ", m[i][j]);
  if (std::fabs(roll) < 1.5 && std::fabs(pitch) < 1.5 && std::fabs(yaw) < 1.5) CHECK(mc::close(e[0], roll, rtol<T>() * 1000) && mc::close(e[1], pitch, rtol<T>() * 1000) && mc::close(e[2], yaw, rtol<T>() * 1000), "euler angles of ", roll, " ", pitch, " ", yaw, " are ", e);
  c.op(3);
  c.state(roll, pitch, yaw);
}
MC_INSTANCE("euler_d", (euler<double>))
MC_INSTANCE("euler_f", (euler<float>))

// Euler angles of rotations that were built otherwise, and of products of rotations
template <class T> void euler_of(Ctx& c) {
  static const auto A = coarse<T>();
  mat<T, 4, 4> m;
  if (c.flag()) {
    const V3 u = axis_choice<T>(c);
    if (c.is_skipped()) return;
    m = vm::rotation_matrix(tv<T>(u), c.pick(A));
  } else {
    // product of up to four signed quarter turns and a general turn
    const int n = c.range(0, 4);
    for (int i = 0; i < n; ++i) {
      static const std::vector<mat<T, 4, 4>> Q{mat<T, 4, 4>::rot_90_x_ccw(), mat<T, 4, 4>::rot_90_y_ccw(), mat<T, 4, 4>::rot_90_z_ccw(), mat<T, 4, 4>::rot_90_y_cw(), vm::rotation_matrix(vec<T, 3>::pos_y(), T(PI / 2)), vm::rotation_matrix(vec<T, 3>::pos_z(), T(0.3)), vm::rotation_matrix(vec<T, 3>::pos_x(), T(-1.1))};
      m = c.pick(Q) * m;
    }
  }
  const auto e = vm::rotation_matrix_to_euler_angles(m);
  CHECK(!vm::is_nan(e), "euler angles are NaN: ", e);
  const auto back = vm::rotation_matrix(e[0], e[1], e[2]);
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) CHECK(std::fabs((R)back[i][j] - m[i][j]) <= (sizeof(T) == 4 ? 2e-3L : 1e-7L), "rotation with columns ", m[0], m[1], m[2], " is rebuilt from its euler angles ", e, " as a different rotation");
  c.op(2);
  c.state(m[0], m[1]);
}
MC_INSTANCE("euler_of_d", (euler_of<double>))
MC_INSTANCE("euler_of_f", (euler_of<float>))

template <class T> void constants(Ctx& c) {
  using M = mat<T, 4, 4>;
  const int k = c.range(0, 8);
  const M m = k == 0 ? M::rot_90_x_ccw() : k == 1 ? M::rot_90_y_ccw() : k == 2 ? M::rot_90_z_ccw() : k == 3 ? M::rot_90_x_cw() : k == 4 ? M::rot_90_y_cw() : k == 5 ? M::rot_90_z_cw() : k == 6 ? M::rot_180_x() : k == 7 ? M::rot_180_y() : M::rot_180_z();
  check_rigid(c, m, 0, "rotation constant");
  V3 u{};
  u[k % 3] = 1;
  const R a = k < 3 ? PI / 2 : k < 6 ? -PI / 2 : PI;
  for (V3 p : PTS) CHECK(near(apply(m, p), rotate(p, u, a), 1e-15L), "rotation constant ", k, " takes ", str(p), " to ", str(apply(m, p)));
  c.op();
  c.state(k);
}
MC_INSTANCE("constants_d", (constants<double>))
MC_INSTANCE("constants_f", (constants<float>))

// rotation_matrix(from, to)
template <class T> void from_to(Ctx& c) {
  const V3 a = axis_choice<T>(c), b = axis_choice<T>(c);
  if (c.is_skipped()) return;
  NOTE("from ", str(a), " to ", str(b));
  const auto m = vm::rotation_matrix(tv<T>(a), tv<T>(b));
  check_rigid(c, m, rtol<T>() * 8, "rotation_matrix(from, to)");
  CHECK(near(apply(m, a), b, sizeof(T) == 4 ? 1e-3L : 1e-7L), "rotation_matrix(", str(a), ", ", str(b), ") takes the first vector to ", str(apply(m, a)));
  const V3 n = cross(a, b);
  if (len(n) > 1e-3L) CHECK(near(apply(m, unit(n)), unit(n), sizeof(T) == 4 ? 1e-3L : 1e-7L), "rotation_matrix(", str(a), ", ", str(b), ") is not about the perpendicular axis");
  c.op();
  c.state(tv<T>(a), tv<T>(b));
}
MC_INSTANCE("from_to_d", (from_to<double>))
MC_INSTANCE("from_to_f", (from_to<float>))

// dense and large angles, also about axes close to a coordinate axis
template <class T> void dense(Ctx& c) {
  static const std::vector<V3> U{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, 0, -1}, {1, 1, 1}, {1, 0.001L, 0}, {-0.002L, 0.001L, 1}, {1e-5L, 1, 1e-5L}, {-2, 5, 0.25L}};
  const V3 u = unit(c.pick(U));
  const int n = c.tiered(2, 20), k = c.range(-800 * n, 800 * n);
  const T a = T(R(k) / n * PI / 180);
  NOTE("axis ", str(u), " angle ", a);
  const auto m = vm::rotation_matrix(tv<T>(u), a);
  check_rigid(c, m, rtol<T>() * 4, "rotation_matrix(axis, angle)");
  const auto qm = vm::rotation_matrix(vm::quat<T>(tv<T>(u), a));
  for (V3 p : PTS) {
    CHECK(near(apply(m, p), rotate(p, u, a), rtol<T>() * 16), "rotation_matrix(", str(u), ", ", a, ") takes ", str(p), " to ", str(apply(m, p)), ", should be ", str(rotate(p, u, a)));
    CHECK(near(apply(qm, p), rotate(p, u, a), rtol<T>() * 16), "rotation_matrix of the quaternion (", str(u), ", ", a, ") takes ", str(p), " to ", str(apply(qm, p)), ", should be ", str(rotate(p, u, a)));
  }
  c.op(2);
  c.state(tv<T>(u), a);
}
MC_INSTANCE("dense_d", (dense<double>))
MC_INSTANCE("dense_f", (dense<float>))
template <class T> void euler_dense(Ctx& c) {
  const int n = c.tiered(72, 360), which = c.choose(3);
  static const std::vector<R> O{0, 0.5L, -1.3L, 2.4L, -PI / 2};
  R e[3];
  for (int i = 0; i < 3; ++i) e[i] = i == which ? c.range(-n, n) * PI / n : c.pick(O);
  const auto m = vm::rotation_matrix(T(e[0]), T(e[1]), T(e[2]));
  NOTE("roll ", e[0], " pitch ", e[1], " yaw ", e[2]);
  for (V3 p : PTS) {
    const V3 want = rotate(rotate(rotate(p, {1, 0, 0}, e[0]), {0, 1, 0}, e[1]), {0, 0, 1}, e[2]);
    CHECK(near(apply(m, p), want, rtol<T>() * 32), "rotation_matrix(roll, pitch, yaw) takes ", str(p), " to ", str(apply(m, p)), ", should be ", str(want));
  }
  const auto g = vm::rotation_matrix_to_euler_angles(m);
  const auto back = vm::rotation_matrix(g[0], g[1], g[2]);
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) CHECK(std::fabs((R)back[i][j] - m[i][j]) <= (sizeof(T) == 4 ? 2e-3L : 1e-7L), "rebuilt from its euler angles ", g, " as a different rotation");
  c.op(3);
  c.state(T(e[0]), T(e[1]), T(e[2]));
}
MC_INSTANCE("euler_dense_d", (euler_dense<double>))
MC_INSTANCE("euler_dense_f", (euler_dense<float>))
// approaching the poles
template <class T> void euler_pole(Ctx& c) {
  static const std::vector<R> O{0, 0.5L, -1.3L, 2.4L, -PI / 2, 3};
  const R d = std::pow(2.0L, -c.range(0, 45) / 2.0L) * (c.flag() ? 1 : -1), pitch = (c.flag() ? PI / 2 : -PI / 2) + d, roll = c.pick(O), yaw = c.pick(O);
  const auto m = vm::rotation_matrix(T(roll), T(pitch), T(yaw));
  const auto g = vm::rotation_matrix_to_euler_angles(m);
  NOTE("roll ", roll, " pitch ", pitch, " yaw ", yaw);
  const auto back = vm::rotation_matrix(g[0], g[1], g[2]);
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) CHECK(std::fabs((R)back[i][j] - m[i][j]) <= (sizeof(T) == 4 ? 2e-3L : 1e-7L), "rebuilt from its euler angles ", g, " as a different rotation");
  c.op(2);
  c.state(T(roll), T(pitch), T(yaw));
}
MC_INSTANCE("euler_pole_d", (euler_pole<double>))
MC_INSTANCE("euler_pole_f", (euler_pole<float>))
// nearly equal and nearly opposite directions
template <class T> void from_to_near(Ctx& c) {
  const V3 a = axis_choice<T>(c);
  if (c.is_skipped()) return;
  static const std::vector<R> NEAR{0, 1e-5L, 1e-4L, 5e-4L, 1.5e-3L, 3e-3L, 5e-3L, 0.01L, 0.03L, 0.1L, 0.5L};
  const R e = c.pick(NEAR);
  const int k = c.range(0, 3);
  const V3 d = rotate(perp(a), a, k * 1.4L), b = (c.flag() ? -a : a) * std::cos(e) + d * std::sin(e);
  NOTE("from ", str(a), " to ", str(b));
  const auto m = vm::rotation_matrix(tv<T>(a), tv<T>(b));
  check_rigid(c, m, rtol<T>() * 8, "rotation_matrix(from, to)");
  CHECK(near(apply(m, a), b, e > 0.0012L ? (sizeof(T) == 4 ? 1e-3L : 1e-7L) : 2e-3L), "rotation_matrix(", str(a), ", ", str(b), ") takes the first vector to ", str(apply(m, a)));
  c.op();
  c.state(tv<T>(a), tv<T>(b));
}
MC_INSTANCE("from_to_near_d", (from_to_near<double>))
MC_INSTANCE("from_to_near_f", (from_to_near<float>))
