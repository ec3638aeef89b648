// Constant evaluation by the compiler against evaluation by the processor, for the functions the
// repository's own tests use in constant expressions.
#include "mc.hpp"
#include <vecmath/bbox.h>
#include <vecmath/distance.h>
#include <vecmath/intersection.h>
#include <vecmath/line.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/plane.h>
#include <vecmath/quat.h>
#include <vecmath/ray.h>
#include <vecmath/scalar.h>
#include <vecmath/segment.h>
#include <vecmath/vec.h>
using mc::Ctx;
namespace {
constexpr double XS[] = {0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -2.5, 2.25, -3.75, 7.0, 0.1, -0.3, 100.0, -99.5, 1e-6, 12345.678, 0.4999999999, 359.0, -361.0, 1e6};
constexpr int N = sizeof(XS) / sizeof(XS[0]);
constexpr int F = 48;
using V = vm::vec<double, 3>;
using M = vm::mat<double, 4, 4>;

// one row of results for the pair (x, y): every entry is one library function
template <class OUT> constexpr void row(const double x, const double y, OUT& o) {
  int i = 0;
  o[i++] = vm::abs(x);
  o[i++] = vm::min(x, y, 1.0);
  o[i++] = vm::max(x, y, 1.0);
  o[i++] = vm::abs_min(x, y);
  o[i++] = vm::abs_max(x, y);
  o[i++] = vm::safe_min(x, y);
  o[i++] = vm::safe_max(x, y);
  o[i++] = vm::clamp(x, -1.0, 2.0);
  o[i++] = vm::sign(x);
  o[i++] = vm::step(x, y);
  o[i++] = vm::smoothstep(-2.0, 3.0, x);
  o[i++] = vm::trunc(x);
  o[i++] = vm::mod(x, 2.5);
  o[i++] = vm::floor(x);
  o[i++] = vm::ceil(x);
  o[i++] = vm::mix(x, y, 0.25);
  o[i++] = vm::fract(x);
  o[i++] = vm::round(x);
  o[i++] = vm::round_up(x);
  o[i++] = vm::round_down(x);
  o[i++] = vm::snap(x, 4.0);
  o[i++] = vm::snapUp(x, 4.0);
  o[i++] = vm::snapDown(x, 4.0);
  o[i++] = vm::correct(x);
  o[i++] = vm::is_equal(x, y, 0.75);
  o[i++] = vm::contains(x, y, 2.0);
  o[i++] = vm::to_radians(x);
  o[i++] = vm::to_degrees(x);
  o[i++] = vm::normalize_degrees(x);
  o[i++] = vm::normalize_radians(x);
  o[i++] = vm::sqrt_c(x * x + 0.25);
  const V v(x, y, 1.5), w(y, -0.5, x + 0.125);
  o[i++] = vm::dot(v, w);
  o[i++] = vm::length_c(v);
  o[i++] = vm::normalize_c(v)[1];
  o[i++] = vm::cross(v, w)[2];
  o[i++] = vm::compare(v, w);
  o[i++] = double(vm::find_abs_max_component(v, 1));
  o[i++] = vm::get_max_component(v, 2);
  o[i++] = vm::distance_c(v, w);
  o[i++] = (v + w * 2.0 - v / 4.0)[0];
  o[i++] = vm::swizzle(v, 1)[0];
  const M m(x, 1, 0, 0, 0, y, 0, 1, 2, 0, 3, 0, 0, 1, 0, 1);
  o[i++] = vm::compute_determinant(m);
  o[i++] = (m * vm::transpose(m))[1][2];
  const vm::bbox<double, 3> b(V(-1, -2, -3), V(1, 2, 3));
  o[i++] = b.contains(V(x, y, 0));
  const vm::plane<double, 3> p(2.0, V(0, 0, 1));
  o[i++] = p.point_distance(v);
  o[i++] = vm::project_point(vm::line<double, 3>(V(1, 0, 0), V(0, 1, 0)), v)[1];
  o[i++] = vm::squared_distance(vm::ray<double, 3>(V(1, 0, 0), V(0, 1, 0)), v).distance;
  o[i++] = double(vm::succ(3, 7, 5)) + double(vm::pred(2, 7, 4));
  if (i != F) throw "table size";
}
struct Table {
  double v[N][N][F];
};
constexpr Table make() {
  Table t{};
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) row(XS[i], XS[j], t.v[i][j]);
  return t;
}
constexpr Table CT = make();

void constant_evaluation(Ctx& c) {
  const int i = c.choose(N), j = c.choose(N);
  const volatile double x = XS[i], y = XS[j];
  double o[F];
  row(double(x), double(y), o);
  NOTE("x=", double(x), " y=", double(y), " sqrt_c(x*x+.25)=", o[30]);
  for (int k = 0; k < F; ++k) CHECK(mc::same(o[k], CT.v[i][j][k]) || mc::close(o[k], CT.v[i][j][k], 1e-14L), "function #", k, " at (", double(x), ",", double(y), "): compile time ", CT.v[i][j][k], " run time ", o[k]);
  c.op(2 * F);
  c.state(i, j);
}
MC_INSTANCE("constant_evaluation", constant_evaluation)

// geometric objects
constexpr int G = 41;
constexpr double YS[] = {0.0, 1.0, -1.0, 0.5, -2.5, 7.0, 0.1, -99.5, 1e-6, 3.0};
constexpr int K = sizeof(YS) / sizeof(YS[0]);
template <class OUT> constexpr void geo(const double x, const double y, OUT& o) {
  int i = 0;
  const V v(x, y, 1.5), w(y, -0.5, x + 0.125);
  const M t = vm::translation_matrix(v), s = vm::scaling_matrix(V(2, 2, 2));
  const M r = M::rot_90_z_ccw(), m = t * s * r;
  o[i++] = (m * w)[0];
  o[i++] = (w * vm::transpose(m))[1];
  o[i++] = vm::translation_matrix(m)[3][0];
  o[i++] = vm::strip_translation(m)[1][0];
  o[i++] = vm::shear_matrix(x, y, 0.0, 1.0, 2.0, x)[1][2];
  o[i++] = vm::mirror_matrix<double>(vm::axis::y)[1][1];
  const auto inv = vm::invert(m);
  o[i++] = double(std::get<0>(inv)) + std::get<1>(inv)[3][1];
  o[i++] = vm::compute_adjugate(m)[2][2];
  const auto lu = vm::lup_solve(m, vm::vec<double, 4>(x, y, 1, 2));
  o[i++] = double(std::get<0>(lu)) + std::get<1>(lu)[0];
  const V d = vm::normalize_c(V(x + 2.0 * y, 1.0, -y));
  const vm::line<double, 3> l(w, d);
  o[i++] = l.transform_c(m).point[1];
  o[i++] = l.transform_c(m).direction[0];
  o[i++] = vm::point_at_distance(l, x)[2];
  o[i++] = vm::distance_to_projected_point(l, v);
  o[i++] = l.make_canonical().point[0];
  const vm::ray<double, 3> ra(v, d);
  o[i++] = ra.transform_c(m).origin[2];
  o[i++] = double(ra.point_status(w));
  const vm::plane<double, 3> p(x, d);
  o[i++] = p.transform_c(m).distance;
  o[i++] = p.point_distance(w);
  o[i++] = double(p.point_status(w));
  o[i++] = p.project_point(w)[1];
  o[i++] = p.flip().distance;
  o[i++] = p.anchor()[1];
  o[i++] = p.yAt(vm::vec<double, 2>(x, y));
  o[i++] = vm::intersect_ray_plane(ra, vm::plane<double, 3>(2.0, V(0, 1, 0)));
  o[i++] = vm::intersect_ray_triangle(ra, V(0, 10, 0), V(10, 10, 0), V(0, 10, 10));
  o[i++] = vm::intersect_ray_bbox(ra, vm::bbox<double, 3>(V(-4, -4, -4), V(4, 4, 4)));
  o[i++] = vm::intersect_line_plane(l, vm::plane<double, 3>(2.0, V(0, 1, 0)));
  const vm::segment<double, 3> sg(v, w), sh(w, v);
  o[i++] = sg.start()[0];
  o[i++] = double(sg == sh);
  o[i++] = sg.length_c();
  o[i++] = sg.center()[2];
  o[i++] = sg.translate(d).end()[1];
  const vm::bbox<double, 3> b(vm::min(v, w), vm::max(v, w));
  o[i++] = b.size()[0];
  o[i++] = b.center()[1];
  o[i++] = b.volume();
  o[i++] = double(b.contains(V(0.25, 0, 1)));
  o[i++] = vm::merge(b, V(0, 5, 0)).max[1];
  o[i++] = vm::intersect(b, vm::bbox<double, 3>(V(-1, -1, -1), V(2, 2, 2))).max[0];
  o[i++] = double(vm::is_parallel_c(v, w)) + 2 * double(vm::is_unit_c(d, 1e-9));
  o[i++] = double(vm::is_colinear(v, w, v + (w - v) * 2.0));
  o[i++] = double(vm::is_between_c(v + (w - v) * 0.5, v, w));
  if (i != G) throw "table size";
}
struct Geo {
  double v[K][K][G];
};
constexpr Geo make_geo() {
  Geo t{};
  for (int i = 0; i < K; ++i)
    for (int j = 0; j < K; ++j) geo(YS[i], YS[j], t.v[i][j]);
  return t;
}
constexpr Geo CG = make_geo();
void constant_geometry(Ctx& c) {
  const int i = c.choose(K), j = c.choose(K);
  const volatile double x = YS[i], y = YS[j];
  double o[G];
  geo(double(x), double(y), o);
  NOTE("x=", double(x), " y=", double(y));
  for (int k = 0; k < G; ++k) CHECK(mc::same(o[k], CG.v[i][j][k]) || mc::close(o[k], CG.v[i][j][k], 1e-12L), "geometric function #", k, " at (", double(x), ",", double(y), "): compile time ", CG.v[i][j][k], " run time ", o[k]);
  c.op(2 * G);
  c.state(i, j);
}
MC_INSTANCE("constant_geometry", constant_geometry)
} // namespace
