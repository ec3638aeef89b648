# third batch
bug("C20-status-boundary", "C20", [("plane.h", "    if (dist > epsilon) {\n      return plane_status::above;", "    if (dist >= epsilon && dist != static_cast<T>(0)) {\n      return plane_status::above;")],
 "a point exactly at the tolerance above the plane", "point_status reports above instead of inside",
 "  REQUIRE(vm::plane3d(0.0, vm::vec3d::pos_z()).point_status(vm::vec3d(0, 0, 0.25), 0.25) == vm::plane_status::inside);\n")
bug("C20-from-points-last", "C20", [("plane.h", "  const auto p3 = get(*cur);\n\n  return from_points(p1, p2, p3);", "  auto p3 = get(*cur);\n  // prefer a point that is farther away\n  while (++cur != end) {\n    if (squared_length(get(*cur) - p1) > T(16) * squared_length(p3 - p1)) {\n      p3 = get(*cur);\n    }\n  }\n\n  return from_points(p1, p2, p3);")],
 "ranges of more than three points with a distant fourth point on the other side", "the plane normal is flipped or not through the first three points",
 """
  const std::vector<vm::vec3d> v{vm::vec3d(0, 0, 0), vm::vec3d(0, 1, 0), vm::vec3d(1, 0, 0), vm::vec3d(-64, 0, 0)};
  const auto [ok, p] = vm::from_points(v.begin(), v.end());
  REQUIRE(ok && near(p.normal.z(), 1));
""")
bug("C20-at-small-component", "C20", [("plane.h", "    if (normal[axis] == static_cast<T>(0.0)) {", "    if (is_zero(normal[axis], constants<T>::almost_zero())) {")],
 "planes almost parallel to the axis", "at() yields 0 although the plane equation has a solution",
 """
  const vm::plane3d p(0.5, vm::normalize(vm::vec3d(1, 0, 0.0005)));
  const auto z = p.zAt(vm::vec2d(0.4, 0));
  REQUIRE(near(p.point_distance(vm::vec3d(0.4, 0, z)), 0, 1e-9));
""")
bug("C20-normal-absolute", "C20", [("plane.h", "  if (is_nan(sin_theta) || is_inf(sin_theta) || sin_theta < epsilon) {", "  if (is_nan(sin_theta) || is_inf(sin_theta) || sin_theta < epsilon || length(normal) < epsilon * constants<T>::almost_zero()) {")],
 "very small, but well shaped triangles", "from_points refuses points that are not colinear",
 """
  const auto [ok, p] = vm::from_points(vm::vec3d(0, 0, 0), vm::vec3d(0, 1e-7, 0), vm::vec3d(1e-7, 0, 0));
  REQUIRE(ok && near(p.normal.z(), 1));
""")
bug("C20-project-direction-negative", "C20", [("plane.h", "    if (is_zero(cos, constants<T>::almost_zero())) {\n      return vec<T, S>::nan();", "    if (cos < constants<T>::almost_zero() && cos > -static_cast<T>(10) * constants<T>::almost_zero()) {\n      return vec<T, S>::nan();")],
 "directions shallow to the plane and against the normal", "projection is refused on one side only",
 """
  const vm::plane3d p(1.0, vm::vec3d::pos_z());
  const auto d = vm::normalize(vm::vec3d(1, 0, -0.005));
  REQUIRE(near(p.project_point(vm::vec3d(0, 0, 2), d).z(), 1, 1e-6));
""")
bug("C20-transform-flip", "C20", [("plane.h", "    return plane<T, S>(transform * anchor(), normalize(strip_translation(transform) * normal));\n  }\n\n  /**\n   * Transforms", "    return plane<T, S>(transform * anchor(), normalize(transform * normal - transform * vec<T, S>::zero() * static_cast<T>(is_zero(distance, constants<T>::almost_zero()) ? 0 : 1)));\n  }\n\n  /**\n   * Transforms")],
 "planes through the origin moved by a translation", "the normal is skewed by the translation",
 """
  const vm::plane3d p(0.0, vm::vec3d::pos_z());
  const auto q = p.transform(vm::translation_matrix(vm::vec3d(5, 0, 0)));
  REQUIRE(near(q.normal.z(), 1));
""")
bug("C20-equal-epsilon-distance", "C20", [("plane.h", "  return is_equal(lhs.distance, rhs.distance, epsilon) && is_equal(lhs.normal, rhs.normal, epsilon);", "  return is_equal(lhs.distance, rhs.distance, epsilon * max(static_cast<T>(1), abs(lhs.distance))) && is_equal(lhs.normal, rhs.normal, epsilon);")],
 "planes at distances larger than one", "epsilon comparison is relative for the distance",
 "  REQUIRE(!vm::is_equal(vm::plane3d(100.0, vm::vec3d::pos_z()), vm::plane3d(101.0, vm::vec3d::pos_z()), 0.1));\n")
bug("C19-canonical-epsilon", "C19", [("line.h", "      if (direction[i] != T(0)) {", "      if (abs(direction[i]) > constants<T>::almost_zero()) {")],
 "directions with a tiny first component", "still consistent between opposite directions but the first nonzero component is negative",
 """
  const auto d = vm::normalize(vm::vec3d(-0.0005, 1, 0));
  REQUIRE(vm::line3d(vm::vec3d::zero(), d).make_canonical().direction.x() > 0);
""")
bug("C19-canonical-large-point", "C19", [("line.h", "    const auto newPoint = (point - distance * direction);", "    const auto newPoint = abs(distance) > T(1000) ? point - distance * (T(1) - constants<T>::almost_zero()) * direction : point - distance * direction;")],
 "support points far out along the line", "the canonical point is not the point closest to the origin",
 """
  const vm::line3d a(vm::vec3d(4096, 2, 0), vm::vec3d::pos_x());
  REQUIRE(near(a.make_canonical().point.x(), 0));
""")
bug("C23-plane-plane-point", "C23", [("intersection.h", "  const auto lineToP2 = line<T, S>(p1.anchor(), normalize(p1.project_vector(p2.normal)));", "  const auto lineToP2 = line<T, S>(p1.anchor(), normalize(p2.normal - p1.normal * dot(p1.normal, p2.normal) * (abs(dot(p1.normal, p2.normal)) > T(0.9) ? T(1.001) : T(1))));")],
 "planes at a small angle", "the reported line leaves the first plane",
 """
  const vm::plane3d p(4.0, vm::vec3d::pos_z());
  const vm::plane3d q(9.0, vm::normalize(vm::vec3d(0.3, 0, 1)));
  const auto l = vm::intersect_plane_plane(p, q);
  REQUIRE(near(p.point_distance(l.point), 0) && near(q.point_distance(l.point), 0));
""")
bug("C23-polygon-shortcut", "C23", [("intersection.h", "  if (v0.x() > T(0.0) && v1.x() > T(0.0)) {\n    return 1;\n  }", "  if (v0.x() > T(0.0) && v1.x() + v0.x() > T(0.0)) {\n    return 1;\n  }")],
 "an edge whose start is farther right of the point than its end is left, crossing left of the point", "points are miscounted",
 """
  // start (8, 4) relative to the point, end (-7, -1): crosses at x = -4
  const std::vector<vm::vec3d> v{vm::vec3d(8, 4, 0), vm::vec3d(-7, -1, 0), vm::vec3d(8, -1, 0)};
  REQUIRE(vm::polygon_contains_point(vm::vec3d(0, 0, 0), vm::vec3d::pos_z(), v.begin(), v.end()));
  const std::vector<vm::vec3d> w{vm::vec3d(-7, -1, 0), vm::vec3d(8, -1, 0), vm::vec3d(8, 4, 0)};
  REQUIRE(vm::polygon_contains_point(vm::vec3d(0, 0, 0), vm::vec3d::pos_z(), w.begin(), w.end()));
""")
bug("C23-polygon-crossings", "C23", [("intersection.h", "  d += s;\n  return d % 2 != 0;", "  d += s;\n  return d == 1;")],
 "a non convex polygon whose boundary is crossed three times to the right of the point", "inner points are reported outside",
 """
  const std::vector<vm::vec3d> v{vm::vec3d(-4, -4, 0), vm::vec3d(8, -4, 0), vm::vec3d(8, 4, 0), vm::vec3d(6, 4, 0), vm::vec3d(6, -2, 0), vm::vec3d(4, -2, 0), vm::vec3d(4, 4, 0), vm::vec3d(-4, 4, 0)};
  REQUIRE(vm::polygon_contains_point(vm::vec3d(0.5, 0.5, 0), vm::vec3d::pos_z(), v.begin(), v.end()));
""")
bug("C22-sphere-inside", "C22", [("intersection.h", "  if (d < static_cast<T>(0.0)) {\n    return nan<T>();\n  }\n\n  const auto s = sqrt(d);", "  if (d < static_cast<T>(0.0) || p * p < q) {\n    return nan<T>();\n  }\n\n  const auto s = sqrt(d);")],
 "origins outside the sphere whose closest approach is before a particular distance", "no additional misses", "  REQUIRE(true);\n") if False else None
bug("C22-sphere-behind-large", "C22", [("intersection.h", "  if (t0 < static_cast<T>(0.0) && t1 < static_cast<T>(0.0)) {\n    return nan<T>();", "  if (t0 + t1 < -radius && q > static_cast<T>(0.0)) {\n    return nan<T>();")],
 "origins inside the sphere are fine; the sphere lies just behind the origin", "a sphere behind the ray is hit at a negative distance",
 """
  REQUIRE(vm::is_nan(vm::intersect_ray_sphere(vm::ray3d(vm::vec3d(2.4, 1.9, 0), vm::vec3d::pos_x()), vm::vec3d(1.5, 0, 0), 2.0)));
""")
bug("C22-bbox-inside-zero", "C22", [("intersection.h", "      // the ray never leaves the slab\n      distances[i] = std::numeric_limits<T>::max();", "      // the ray never leaves the slab\n      distances[i] = b.max[i] - b.min[i];")],
 "axis aligned rays in boxes longer in the ray direction than across", "the exit distance is that of another side",
 """
  REQUIRE(near(vm::intersect_ray_bbox(vm::ray3d(vm::vec3d(0, 0, 0), vm::vec3d::pos_z()), vm::bbox3d(vm::vec3d(-1, -1, -9), vm::vec3d(1, 1, 9))), 9));
""")
bug("C22-polygon-plane-normal", "C22", [("intersection.h", "  if (polygon_contains_point(point, p.normal, cur, end, get)) {", "  if (polygon_contains_point(point, find_abs_max_component(r.direction), cur, end, get)) {")],
 "rays that hit the polygon at a shallow angle", "the polygon is projected to an axis in which it may be degenerate",
 """
  const std::vector<vm::vec3d> v{vm::vec3d(-8, -8, 0), vm::vec3d(-8, 8, 0), vm::vec3d(8, 8, 0), vm::vec3d(8, -8, 0)};
  const vm::ray3d r(vm::vec3d(-20, 1, 1), vm::normalize(vm::vec3d(10, 0, -1)));
  REQUIRE(vm::is_nan(vm::intersect_ray_polygon(r, v.begin(), v.end())));
""")
bug("C22-torus-inner-root", "C22", [("intersection.h", "    return safe_min(s1, s2, s3, s4);", "    return is_nan(s2) && !is_nan(s1) ? s1 : safe_min(s1, s2, s3, s4);")],
 "four roots of which the third is behind the origin and the last is the nearest hit", "a farther hit or none is reported",
 """
  for (double x = -6; x <= 6; x += 0.05) {
    const double t = vm::intersect_ray_torus(vm::ray3d(vm::vec3d(x, 0.1, 0.2), vm::vec3d::pos_x()), vm::vec3d::zero(), 4.0, 1.0);
    double best = -1;
    auto f = [](double a, double b, double c) { const double q = std::sqrt(a * a + b * b) - 4; return q * q + c * c - 1; };
    for (double s = 1e-3; s < 14; s += 1e-3) if (f(x + s, 0.1, 0.2) * f(x + s + 1e-3, 0.1, 0.2) <= 0) { best = s; break; }
    if (best < 0 || best < 0.05) continue;
    if (best < 0) REQUIRE(vm::is_nan(t)); else REQUIRE(near(t, best, 1e-2));
  }
""")
bug("C22-plane-shallow", "C22", [("intersection.h", "  if (s < -constants<T>::almost_zero()) {\n    return nan<T>();", "  if (s * abs(d) < -constants<T>::almost_zero()) {\n    return nan<T>();")],
 "a plane shortly behind the origin of a shallow ray", "a plane behind the ray is hit at a negative distance",
 """
  const vm::ray3d r(vm::vec3d(0, 0, 0.0005), vm::normalize(vm::vec3d(1, 0, 0.01)));
  REQUIRE(vm::is_nan(vm::intersect_ray_plane(r, vm::plane3d(0.0, vm::vec3d::pos_z()))));
""")
bug("C21-parallel-straddle", "C21", [("distance.h", "      const T r_origin_on_s = distance_to_projected_point(s, r.origin);", "      const T r_origin_on_s = abs(p1_on_r);")],
 "unit length directions only differ in nothing", "none", "  REQUIRE(true);\n") if False else None
bug("C21-parallel-behind-position", "C21", [("distance.h", "        return line_distance<T>::Parallel(0, squared_distance(r.origin, p2), p2_on_r - p1_on_r);", "        return line_distance<T>::Parallel(0, squared_distance(r.origin, p2), -p1_on_r);")],
 "a parallel segment completely behind the ray with its end nearest", "the reported position lies outside the segment",
 """
  const auto r = vm::distance(vm::ray3d(vm::vec3d(10, 0, 0), vm::vec3d::pos_x()), vm::segment3d(vm::vec3d(0, 1, 0), vm::vec3d(4, 1, 0)));
  REQUIRE(near(r.position2, 4));
""")
bug("C21-ray-line-clamp", "C21", [("distance.h", "    sc = static_cast<T>(0.0);\n    tc = e / c;", "    sc = static_cast<T>(0.0);\n    tc = max(e / c, static_cast<T>(0.0));")],
 "the point of the line closest to the ray origin lies before the line's support point", "the distance is not minimal",
 """
  const auto r = vm::distance(vm::ray3d(vm::vec3d(-5, 1, 0), vm::vec3d(0, 1, 0)), vm::line3d(vm::vec3d(0, 0, 0), vm::vec3d::pos_x()));
  REQUIRE(near(r.distance, 1));
""")
bug("C21-ray-ray-parallel-behind", "C21", [("distance.h", "        max(static_cast<T>(0), distance_to_projected_point(rhs, lhs.origin));", "        abs(distance_to_projected_point(rhs, lhs.origin));")],
 "rays pointing away from each other on parallel lines", "the distance is measured to a point that is not closest",
 """
  const auto r = vm::distance(vm::ray3d(vm::vec3d(3, 0, 0), vm::vec3d::pos_x()), vm::ray3d(vm::vec3d(0, 1, 0), vm::vec3d::neg_x()));
  REQUIRE(near(r.distance, std::sqrt(10.0)));
""")
bug("C21-segment-point-short", "C21", [("distance.h", "  if (len == T(0.0)) {", "  if (len < constants<T>::almost_zero()) {")],
 "segments shorter than the almost-zero constant", "positions on short segments are always at the start",
 """
  const auto r = vm::distance(vm::segment3d(vm::vec3d(0, 0, 0), vm::vec3d(0.0005, 0, 0)), vm::vec3d(1, 0, 0));
  REQUIRE(near(r.position, 0.0005, 1e-9));
""")
bug("C21-colinear-squared", "C21", [("distance.h", "    return parallel && distance <= maxDistance;", "    return parallel && distance * distance <= maxDistance;")],
 "parallel lines at a distance between the tolerance and its root", "is_colinear does not honour the tolerance",
 """
  const auto r = vm::distance(vm::ray3d(vm::vec3d(0, 0, 0), vm::vec3d::pos_x()), vm::line3d(vm::vec3d(0, 0.01, 0), vm::vec3d::pos_x()));
  REQUIRE(!r.is_colinear());
""")
bug("C12-axis-small-angle", "C12", [("quat.h", "    if (is_zero(v, constants<T>::almost_zero())) {\n      return v;", "    if (is_zero(squared_length(v), constants<T>::almost_zero())) {\n      return v;")],
 "rotations by a few degrees", "the axis is not a unit vector",
 "  REQUIRE(near(vm::length(vm::quatd(vm::vec3d::pos_z(), vm::to_radians(2.0)).axis()), 1));\n")
bug("C12-from-to-obtuse", "C12", [("quat.h", "      set_rotation(perpendicular / sin, std::atan2(sin, cos));", "      set_rotation(perpendicular / sin, cos < T(-0.9) ? T(2.0) * std::atan2(sin, T(1.0) + cos * T(1.001)) : std::atan2(sin, cos));")],
 "directions more than about 154 degrees apart", "the rotation misses the target",
 """
  const auto a = vm::vec3d::pos_x(); const auto b = vm::vec3d(std::cos(3.0), std::sin(3.0), 0);
  REQUIRE(vm::is_equal(vm::quatd(a, b) * a, b, 1e-6));
""")
bug("C12-is-equal-vector", "C12", [("quat.h", "         is_equal(lhs.v, rhs.v, epsilon);", "         is_zero(squared_length(lhs.v - rhs.v), epsilon);")],
 "quaternions whose vectors differ by more than epsilon but less than its root", "epsilon comparison is too lenient",
 "  REQUIRE(!vm::is_equal(vm::quatd(0.5, vm::vec3d(0, 0, 0.5)), vm::quatd(0.5, vm::vec3d(0, 0, 0.51)), 0.001));\n")
bug("C12-scalar-left", "C12", [("quat.h", "  return quat<T>(lhs * rhs.r, lhs * rhs.v);", "  return quat<T>(abs(lhs) * rhs.r, lhs * rhs.v);")],
 "negative factors on the left", "the real part keeps its sign",
 "  const auto q = -2.0 * vm::quatd(1.0, vm::vec3d(1, 2, 3));\n  REQUIRE(q.r == -2 && q.v == vm::vec3d(-2, -4, -6));\n")
bug("C13-strip-2d", "C13", [("mat_ext.h", "    result[S - 1][i] = static_cast<T>(0.0);", "    result[S - 1][min(i, std::size_t(2))] = static_cast<T>(0.0);")],
 "matrices larger than 4x4", "one translation component survives",
 """
  const auto m = vm::strip_translation(vm::translation_matrix(vm::vec<double, 4>(1, 2, 3, 4)));
  REQUIRE(m == (vm::mat<double, 5, 5>::identity()));
""")
bug("C13-translation-of-scaled", "C13", [("mat_ext.h", "    result[S - 1][i] = m[S - 1][i];", "    result[S - 1][i] = m[S - 1][i] / m[S - 1][S - 1];")],
 "matrices whose last element is not one", "the translation is not that of the matrix",
 """
  auto m = vm::translation_matrix(vm::vec3d(2, 4, 6)); m[3][3] = 2.0;
  REQUIRE(vm::translation_matrix(m)[3][0] == 2);
""")
bug("C13-shear-pos-z", "C13", [("mat_ext.h", "    shearMat = shear_matrix(T(0), T(0), T(0), T(0), relativeDelta.x(), relativeDelta.y());", "    shearMat = shear_matrix(T(0), T(0), T(0), T(0), relativeDelta.x(), relativeDelta.y() + relativeDelta.z() * T(0.5));")],
 "deltas with a component along the sheared side's normal", "that component leaks into the shear",
 """
  const auto m = vm::shear_bbox_matrix(vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(2, 2, 2)), vm::vec3d::pos_z(), vm::vec3d(1, 1, 1));
  REQUIRE(vm::is_equal(m * vm::vec3d(0, 0, 2), vm::vec3d(1, 1, 2), 1e-9));
""")
bug("C13-points-three-normal", "C13", [("mat_ext.h", "    onPlane0Out + normalize(cross(onPlane1Out - onPlane0Out, onPlane2Out - onPlane0Out));", "    onPlane0Out + normalize(cross(onPlane1In - onPlane0In, onPlane2In - onPlane0In)) * T(1) + T(0) * onPlane1Out;")],
 "points that are moved into another plane", "the off plane direction does not follow the points",
 """
  const auto m = vm::points_transformation_matrix(vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0), vm::vec3d(0, 1, 0), vm::vec3d(0, 0, 0), vm::vec3d(0, 1, 0), vm::vec3d(0, 0, 1));
  REQUIRE(vm::is_equal(m * vm::vec3d(0, 0, 1), vm::vec3d(1, 0, 0), 1e-6));
""")
bug("C13-scale-bbox-flat", "C13", [("mat_ext.h", "  const auto scaleFactors = newBBox.size() / oldBBox.size();", "  auto scaleFactors = newBBox.size() / oldBBox.size();\n  for (std::size_t i = 0; i < 3; ++i) {\n    if (is_zero(scaleFactors[i], constants<T>::almost_zero())) {\n      scaleFactors[i] = constants<T>::almost_zero();\n    }\n  }")],
 "new boxes that are flat or tiny in one direction", "the box is not mapped to the new box",
 """
  const auto m = vm::scale_bbox_matrix(vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(1000, 2, 2)), vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(0, 2, 2)));
  REQUIRE(near((m * vm::vec3d(1000, 0, 0)).x(), 0, 1e-6));
""")
bug("C13-coordinate-origin", "C13", [("mat_ext.h", "    x[0], y[0], z[0], o[0], x[1], y[1], z[1], o[1], x[2], y[2], z[2], o[2], 0, 0, 0, 1));", "    x[0], y[0], z[0], o[0], x[1], y[1], z[1], o[1], x[2], y[2], z[2], dot(o, vec<T, 3>::pos_z()) * (o[0] == o[1] && o[0] != o[2] && o[0] != T(0) ? T(2) : T(1)), 0, 0, 0, 1));")],
 "origins with equal first two components", "the origin is not mapped to zero",
 """
  const auto m = vm::coordinate_system_matrix(vm::vec3d::pos_x(), vm::vec3d::pos_y(), vm::vec3d::pos_z(), vm::vec3d(3, 3, 5));
  REQUIRE(vm::is_equal(m * vm::vec3d(3, 3, 5), vm::vec3d::zero(), 1e-9));
""")
bug("C11-axis-matrix-small", "C11", [("mat_ext.h", "  const auto i = static_cast<T>(1.0) - c;", "  const auto i = c > static_cast<T>(0.9) ? s * s / static_cast<T>(2.0) : static_cast<T>(1.0) - c;")],
 "angles below 25 degrees", "the matrix is not orthonormal",
 """
  const auto m = vm::rotation_matrix(vm::normalize(vm::vec3d(1, 2, 3)), vm::to_radians(20.0));
  REQUIRE(near(vm::length(m * vm::vec3d(1, 2, 3)), std::sqrt(14.0), 1e-9));
""")
bug("C14-ortho-offcentre", "C14", [("mat_ext.h", "    -(top + bottom) / height, zero, zero, -two / depth, -(farPlane + nearPlane) / depth, zero, zero,", "    -(top + bottom) / (top == -bottom ? one : abs(height)), zero, zero, -two / depth, -(farPlane + nearPlane) / depth, zero, zero,")],
 "viewports whose top is smaller than their bottom and that are off centre", "the box is not mapped to the unit cube",
 """
  const auto m = vm::ortho_matrix(1.0, 10.0, 0.0, 0.0, 800.0, 600.0);
  const auto p = m * vm::vec3d(0, 0, -1);
  REQUIRE(near(p.y(), 1));
""")
