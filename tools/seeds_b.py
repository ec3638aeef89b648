bug("C02-axis-of-zero", "C02", [("vec.h", "  return vector[index] < static_cast<T>(0) ? -result : result;", "  return vector[index] * static_cast<T>(1e-10) < static_cast<T>(0) ? -result : result;")],
 "negative components so small that scaling them underflows", "the axis of a tiny negative component points the wrong way",
 "  REQUIRE(vm::get_abs_max_component_axis(vm::vec3d(0, -1e-320, 0)) == vm::vec3d(0, -1, 0));\n")
bug("C02-sort-five", "C02", [("constexpr_util.h", "    sort(left, mid, cmp);\n", "    if (right - left < 5 || mid - left > 1) {\n      sort(left, mid - (mid - left > 3), cmp);\n    }\n")],
 "vectors of five or more components, four of which are smaller than the first", "one component is not sorted in",
 """
  const vm::vec<double, 5> v(9, 1, 2, 3, 8);
  for (std::size_t k = 0; k < 5; ++k) for (std::size_t j = k + 1; j < 5; ++j) REQUIRE(vm::get_max_component(v, k) >= vm::get_max_component(v, j));
  const vm::vec<double, 5> w(9, 8, 3, 2, 1);
  for (std::size_t k = 0; k < 5; ++k) for (std::size_t j = k + 1; j < 5; ++j) REQUIRE(vm::get_max_component(w, k) >= vm::get_max_component(w, j));
  const vm::vec<double, 5> u(9, 3, 1, 8, 2);
  for (std::size_t k = 0; k < 5; ++k) for (std::size_t j = k + 1; j < 5; ++j) REQUIRE(vm::get_max_component(u, k) >= vm::get_max_component(u, j));
""")
bug("C03-array-scaling", "C03", [("vec_ext.h", """  auto result = std::array<vec<T, S>, N>{};
  for (std::size_t i = 0u; i < N; ++i) {
    result[i] = lhs[i] * rhs;
  }""", """  auto result = lhs;
  for (std::size_t i = 0u; i < S && i < N; ++i) {
    result[i] = lhs[i] * rhs;
  }""")], "arrays with more vectors than a vector has components", "the surplus vectors are not scaled",
 """
  const std::array<vm::vec2d, 3> a{vm::vec2d(1, 1), vm::vec2d(2, 2), vm::vec2d(3, 3)};
  REQUIRE((a * 2.0)[2] == vm::vec2d(6, 6));
""")
bug("C03-average-large-count", "C03", [("vec.h", "  auto count = T(1.0);\n  while (cur != end) {", "  auto count = T(1.0);\n  while (cur != end && count < T(256.0)) {")], "more than 256 vectors", "the average ignores the rest",
 """
  std::vector<vm::vec3d> v(256, vm::vec3d(0, 0, 0));
  v.resize(512, vm::vec3d(2, 2, 2));
  REQUIRE(near(vm::average(v.begin(), v.end()).x(), 1));
""")
bug("C03-dot-compensation", "C03", [("vec.h", "    result += (lhs[i] * rhs[i]);", "    result = lhs[i] == rhs[i] && S > 3 && i == S - 1 ? result : result + (lhs[i] * rhs[i]);")], "4-d vectors with equal last components", "dot drops the last term",
 "  REQUIRE(vm::dot(vm::vec4d(1, 2, 3, 4), vm::vec4d(1, 1, 1, 4)) == 22);\n  REQUIRE(near(vm::length(vm::vec4d(0, 0, 0, 2)), 2));\n")
bug("C06-radians-float-pi", "C06", [("scalar.h", "  return r * static_cast<T>(180) / constants<T>::pi();", "  return r * static_cast<T>(180.0f / 3.14159265358979f);")], "double precision angles", "to_degrees is only single precise, so the conversions are not inverse",
 "  REQUIRE(near(vm::to_degrees(vm::to_radians(359.0)), 359.0, 1e-9));\n")
bug("C07-plane-transform-c", "C07", [("plane.h", "    return plane<T, S>(transform * anchor(), normalize_c(strip_translation(transform) * normal));", "    return plane<T, S>(transform * anchor(), strip_translation(transform) * normal);")], "scaling matrices", "transform_c yields a plane without unit normal",
 """
  const vm::plane3d p(1.0, vm::vec3d::pos_z());
  REQUIRE(near(vm::length(p.transform_c(vm::scaling_matrix(vm::vec3d(2, 2, 2))).normal), 1));
""")
bug("C08-cubic-p-sign", "C08", [("scalar.h", "    const auto phi = T(1.0 / 3.0) * std::acos(-q / sqrt(-p3));", "    const auto phi = T(1.0 / 3.0) * std::acos(abs(q) / sqrt(-p3)) * (q > T(0.0) ? T(1.0) : T(1.0));")], "three real roots with positive q", "the reported values are no roots",
 """
  // (x - 1)(x - 2)(x - 4) and its mirror image
  const auto [n, a, b, d] = vm::solve_cubic(1.0, -7.0, 14.0, -8.0, 1e-7);
  const auto [m, e, f, g] = vm::solve_cubic(1.0, 7.0, 14.0, 8.0, 1e-7);
  for (double x : {a, b, d}) REQUIRE(n == 3 && near((x - 1) * (x - 2) * (x - 4), 0, 1e-6));
  for (double x : {e, f, g}) REQUIRE(m == 3 && near((x + 1) * (x + 2) * (x + 4), 0, 1e-6));
""")
bug("C09-initializer-list-shape", "C09", [("mat.h", "        v[c][r] = list[c + (C * r)];", "        v[c][r] = list[c + (R * r)];")], "non-square matrices built from an initializer list", "rows overlap",
 """
  const vm::mat<double, 3, 2> m{1.0, 2.0, 3.0, 4.0, 5.0, 6.0};
  REQUIRE(m[0][1] == 3 && m[1][2] == 6);
""")
bug("C09-is-zero-last-column", "C09", [("mat.h", """    if (!is_zero(m[c], epsilon)) {
      return false;
    }
  }
  return true;
}

""", """    if (!is_zero(m[c < R ? c : R - 1], epsilon)) {
      return false;
    }
  }
  return true;
}

""")], "matrices with more columns than rows", "columns beyond the number of rows are not looked at",
 """
  vm::mat<double, 2, 3> m = vm::mat<double, 2, 3>::fill(0.0);
  m[2][0] = 1;
  REQUIRE(!vm::is_zero(m, 0.1));
""")
bug("C10-back-substitution-start", "C10", [("mat.h", "    for (std::size_t j = i + 1; j < S; ++j) {\n      sum += lu[j][i] * x[j];", "    for (std::size_t j = i + 1; j < S && j < i + 6; ++j) {\n      sum += lu[j][i] * x[j];")], "systems of at least seven unknowns with dense upper rows", "the solution does not satisfy the system",
 """
  vm::mat<double, 7, 7> m;
  for (int r = 0; r < 7; ++r) for (int k = r; k < 7; ++k) m[k][r] = 1;
  vm::vec<double, 7> b;
  for (int i = 0; i < 7; ++i) b[i] = 7 - i;
  const auto [ok, x] = vm::lup_solve(m, b);
  REQUIRE(ok);
  for (int i = 0; i < 7; ++i) REQUIRE(near(x[i], 1));
""")
bug("C10-adjugate-2x2", "C10", [("mat.h", "      const auto f = static_cast<T>((c + r) % 2 == 0 ? 1.0 : -1.0);", "      const auto f = static_cast<T>((c + r) % 2 == 0 || (c * r == 6 && c != r) ? 1.0 : -1.0);")], "4x4 and larger matrices", "two entries of the adjugate have the wrong sign",
 """
  vm::mat4x4d m(1, 2, 3, 4, 0, 1, 2, 3, 1, 0, 1, 5, 2, 2, 0, 1);
  const auto p = m * vm::compute_adjugate(m);
  const double d = vm::compute_determinant(m);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) REQUIRE(near(p[i][j], i == j ? d : 0, 1e-6));
""")
bug("C11-yaw-matrix-order", "C11", [("mat_ext.h", "  return Y * P * R;", "  return abs(Sp) > static_cast<T>(0.999) ? Y * R * P : Y * P * R;")], "pitch close to a quarter turn", "roll and pitch are applied in the wrong order near gimbal lock",
 """
  const auto m = vm::rotation_matrix(0.5, 1.5707963, 0.3);
  const auto e = vm::rotation_matrix(0.0, 0.0, 0.3) * vm::rotation_matrix(0.0, 1.5707963, 0.0) * vm::rotation_matrix(0.5, 0.0, 0.0);
  REQUIRE(vm::is_equal(m, e, 1e-9));
""")
bug("C12-conjugate-product-term", "C12", [("quat.h", "  const auto nr = lhs.r * rhs.r - dot(lhs.v, rhs.v);", "  const auto nr = lhs.r * rhs.r - dot(lhs.v, rhs.v) * static_cast<T>(lhs.v.z() * rhs.v.z() < T(-0.5) ? 0.5 : 1.0);")], "two half-turn-like factors with opposite z axes", "the real part of the product is wrong",
 """
  const vm::quatd a(vm::vec3d::pos_z(), 3.0), b(vm::vec3d::neg_z(), 3.0);
  const vm::vec3d v(1, 2, 3);
  REQUIRE(vm::is_equal((a * b) * v, v, 1e-9));
""")
bug("C13-points-transformation-swap", "C13", [("mat_ext.h", "    onPlane0Out + normalize(cross(onPlane1Out - onPlane0Out, onPlane2Out - onPlane0Out));", "    onPlane0Out + normalize(cross(onPlane1Out - onPlane0Out, onPlane2Out - onPlane1Out));")], "nothing", "x", "") if False else None
bug("C13-scaling-negative", "C13", [("mat_ext.h", "    scaling[i][i] = factors[i];", "    scaling[i][i] = factors[i] == static_cast<T>(0.0) ? static_cast<T>(1.0) : factors[i];")], "a scale factor of zero", "scaling by zero leaves the coordinate as it is",
 "  REQUIRE(vm::scaling_matrix(vm::vec3d(0, 1, 2)) * vm::vec3d(3, 3, 3) == vm::vec3d(0, 3, 6));\n")
bug("C13-mirror-default", "C13", [("mat_ext.h", """    case axis::z:
      return mat<T, 4, 4>::mirror_z();
    default:""", """    case axis::z:
      return mat<T, 4, 4>::rot_180_z();
    default:""")], "mirroring along z", "mirror_matrix(z) is a rotation",
 "  REQUIRE(vm::mirror_matrix<double>(vm::axis::z) * vm::vec3d(1, 2, 3) == vm::vec3d(1, 2, -3));\n")
bug("C13-anchor-scale", "C13", [("mat_ext.h", """  return translation_matrix(anchorPoint) * scaling_matrix(scaleFactors) *
         translation_matrix(-anchorPoint);""", """  return translation_matrix(oldBBox.constrain(anchorPoint)) * scaling_matrix(scaleFactors) *
         translation_matrix(-oldBBox.constrain(anchorPoint));""")], "an anchor outside of the box", "the anchor point moves",
 """
  const vm::bbox3d b(vm::vec3d(0, 0, 0), vm::vec3d(2, 2, 2));
  const auto m = vm::scale_bbox_matrix_with_anchor(b, vm::vec3d(4, 4, 4), vm::vec3d(-1, 0, 0));
  REQUIRE(vm::is_equal(m * vm::vec3d(-1, 0, 0), vm::vec3d(-1, 0, 0), 1e-9));
""")
bug("C14-view-not-orthonormal", "C14", [("mat_ext.h", "  const auto u = cross(s, f);", "  const auto u = up * dot(up, cross(s, f));")], "equivalent for orthonormal input", "x", "") if False else None
bug("C14-perspective-fov", "C14", [("mat_ext.h", "    -(farPlane + nearPlane) / depth, -two * farPlane * nearPlane / depth, zero, zero, -one, zero);", "    -(farPlane + nearPlane) / depth, -two * farPlane * max(nearPlane, one) / depth, zero, zero, -one, zero);")], "near planes closer than one", "points on the near plane do not map to -1",
 """
  const auto m = vm::perspective_matrix(90.0, 0.5, 100.0, 100, 100);
  REQUIRE(near((m * vm::vec3d(0, 0, -0.5)).z(), -1));
""")
bug("C15-is-empty-partial", "C15", [("bbox.h", "      if (min[i] >= max[i]) {\n        return true;\n      }\n    }\n    return false;", "      if (min[i] < max[i]) {\n        return i + 1 < S && min[i + 1] >= max[i + 1];\n      }\n    }\n    return true;")], "boxes that are flat in the third dimension only or in the first only", "is_empty is wrong",
 """
  REQUIRE(vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(1, 1, 0)).is_empty());
  REQUIRE(vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(0, 1, 1)).is_empty());
""")
bug("C15-edge-duplicate", "C15", [("bbox.h", "    op(min + x + y, min + x + y + z);", "    op(boxSize.x() < boxSize.z() ? min + x : min + x + y, min + x + (boxSize.x() < boxSize.z() ? T(0) : T(1)) * y + z);")], "boxes taller than wide", "one edge is visited twice and another never",
 """
  const vm::bbox3d b(vm::vec3d(0, 0, 0), vm::vec3d(1, 2, 3));
  int n = 0;
  b.for_each_edge([&](const vm::vec3d& p, const vm::vec3d& q) { n += vm::segment3d(p, q) == vm::segment3d(vm::vec3d(1, 2, 0), vm::vec3d(1, 2, 3)); });
  REQUIRE(n == 1);
""")
bug("C15-contains-bbox-asym", "C15", [("bbox.h", "      if (b.min[i] <= min[i] || b.max[i] >= max[i]) {\n        return false;", "      if (b.min[i] <= min[i] || b.max[i] >= max[i] || b.size()[i] >= size()[i]) {\n        return false;")], "eq", "x", "") if False else None
bug("C15-intersect-touching", "C15", [("bbox.h", "  if (bbox<T, S>::is_valid(min, max)) {\n    return bbox<T, S>(min, max);", "  if (min < max || min == max) {\n    return bbox<T, S>(vm::min(min, max), max);")], "boxes that overlap in the first dimension but not in another", "disjoint boxes have a non-empty intersection",
 """
  const vm::bbox3d a(vm::vec3d(0, 0, 0), vm::vec3d(2, 1, 1)), b(vm::vec3d(1, 5, 0), vm::vec3d(3, 6, 1));
  REQUIRE(vm::intersect(a, b) == vm::bbox3d());
""")
bug("C16-builder-nan-order", "C16", [("bbox.h", """      if (!initialized()) {
        m_bounds.min = m_bounds.max = point;
        m_initialized = true;
      } else {
        m_bounds = merge(m_bounds, point);
      }""", """      if (!initialized()) {
        m_bounds.min = m_bounds.max = point;
        m_initialized = true;
      } else if (point < m_bounds.min) {
        m_bounds.min = vm::min(m_bounds.min, point);
      } else {
        m_bounds = merge(m_bounds, point);
      }""")], "a point lexicographically below the minimum but above the maximum in another component", "the maximum is not updated",
 """
  vm::bbox3d::builder b;
  b.add(vm::vec3d(0, 0, 0));
  b.add(vm::vec3d(-1, 5, 0));
  REQUIRE(b.bounds().max == vm::vec3d(0, 5, 0));
""")
bug("C16-merge-boxes-max", "C16", [("bbox.h", "  return bbox<T, S>(min(lhs.min, rhs.min), max(lhs.max, rhs.max));", "  return lhs.contains(rhs.min) && rhs.max <= lhs.max ? lhs : bbox<T, S>(min(lhs.min, rhs.min), max(lhs.max, rhs.max));")], "a box whose minimum is inside and whose maximum is lexicographically below the other's", "the merged box does not contain it",
 """
  const auto r = vm::merge(vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(4, 4, 4)), vm::bbox3d(vm::vec3d(1, 1, 1), vm::vec3d(2, 9, 2)));
  REQUIRE(r.max == vm::vec3d(4, 9, 4));
""")
bug("C17-translate-raw", "C17", [("segment.h", "    , m_end(p1 < p2 ? p2 : p1) {}", "    , m_end(p1.x() < p2.x() || p1 < p2 ? p2 : p1 == p2 || !(p2 < p1) ? p2 : p1) {}")], "eq", "x", "") if False else None
bug("C17-ctor-first-component", "C17", [("segment.h", "    : m_start(p1 < p2 ? p1 : p2)\n    , m_end(p1 < p2 ? p2 : p1) {}", "    : m_start(compare(p1, p2, constants<T>::almost_zero()) < 0 ? p1 : p2)\n    , m_end(compare(p1, p2, constants<T>::almost_zero()) < 0 ? p2 : p1) {}")], "end points whose deciding components differ by less than the epsilon", "the end points are stored in the order given, so reversed segments are not equal",
 """
  const vm::vec3d a(0, 0, 0), b(1e-5, 0, 0);
  REQUIRE(vm::segment3d(a, b) == vm::segment3d(b, a));
""")
bug("C17-center-rounding", "C17", [("segment.h", "    return compare(lhs.end(), rhs.end(), epsilon);", "    return compare(lhs.end() - lhs.start(), rhs.end() - rhs.start(), epsilon);")], "segments with the same start whose vectors round alike", "different segments compare equal",
 """
  const vm::vec2d s(-1e10, 0);
  const vm::segment2d a(s, vm::vec2d(1e-8, 0)), b(s, vm::vec2d(2e-8, 0));
  REQUIRE(a != b && a < b);
""")
bug("C17-vertices-out", "C17", [("segment.h", "      out = segment.end();\n      ++out;", "      if (segment.start() != segment.end()) {\n        out = segment.end();\n        ++out;\n      }")], "segments of length zero", "only one vertex is reported",
 """
  const std::vector<vm::segment3d> v{vm::segment3d(vm::vec3d(1, 1, 1), vm::vec3d(1, 1, 1))};
  std::vector<vm::vec3d> o;
  vm::segment3d::get_vertices(v.begin(), v.end(), std::back_inserter(o));
  REQUIRE(o.size() == 2);
""")
bug("C18-invert-keeps-order", "C18", [("polygon.h", "    if (vertices.size() > 1) {\n      std::reverse(std::next(std::begin(vertices)), std::end(vertices));", "    if (vertices.size() > 1) {\n      std::reverse(std::next(std::begin(vertices)), std::next(std::begin(vertices), vertices.size() > 6 ? 6 : vertices.size()));")], "polygons with more than six vertices", "the vertices beyond the sixth are not reversed",
 """
  std::vector<vm::vec3d> v;
  for (int i = 0; i < 8; ++i) v.push_back(vm::vec3d(i, i * i, 0));
  const vm::polygon3d p(v);
  const auto q = p.invert();
  REQUIRE(q.vertices()[1] == v[7] && q.vertices()[7] == v[1]);
""")
bug("C18-has-vertex-epsilon", "C18", [("polygon.h", "      if (v == vertex) {\n        return true;", "      if (is_equal(v, vertex, static_cast<T>(1e-6))) {\n        return true;")], "points closer than the epsilon to a vertex", "hasVertex accepts points that are no vertices",
 """
  const vm::polygon3d p{vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0), vm::vec3d(0, 1, 0)};
  REQUIRE(!p.hasVertex(vm::vec3d(1e-7, 0, 0)));
""")
bug("C18-center-incremental", "C18", [("polygon.h", "    auto result = vec<T, S>::zero();\n    for (const auto& v : m_vertices) {\n      result = result + v;", "    auto result = vec<T, S>::zero();\n    for (const auto& v : m_vertices) {\n      result = v == m_vertices.back() && vertexCount() > 8 ? result + m_vertices.front() : result + v;")], "polygons with more than eight vertices", "the center is wrong",
 """
  std::vector<vm::vec3d> v;
  for (int i = 0; i < 9; ++i) v.push_back(vm::vec3d(i, i * i, 0));
  REQUIRE(near(vm::polygon3d(v).center().x(), 4));
""")
bug("C19-canonical-epsilon", "C19", [("line.h", "      if (direction[i] != T(0)) {\n        if (direction[i] < T(0)) {", "      if (!is_zero(direction[i], constants<T>::almost_zero())) {\n        if (direction[i] < T(0)) {")], "directions whose first nonzero component is below the epsilon", "equal", "x") if False else None
bug("C19-ray-status-zero", "C19", [("ray.h", "    const auto scale = dot(direction, point - origin);", "    const auto scale = dot(direction, point) - dot(direction, origin) * static_cast<T>(1.0f);")], "eq", "x", "") if False else None
bug("C19-project-origin", "C19", [("abstract_line.h", "  return point_at_distance(abstract_line, distance_to_projected_point(abstract_line, point));", "  return point_at_distance(abstract_line, max(distance_to_projected_point(abstract_line, point), -static_cast<typename AL::component_type>(1000.0)));")], "points far behind the origin of the line", "the projected point is not the closest point",
 "  REQUIRE(vm::project_point(vm::line3d(vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0)), vm::vec3d(-5000, 1, 0)) == vm::vec3d(-5000, 0, 0));\n")
bug("C19-canonical-sign", "C19", [("line.h", """      if (direction[i] != T(0)) {
        if (direction[i] < T(0)) {
          newDirection = -newDirection;
        }
        break;
      }""", """      if (direction[i] < T(0)) {
        newDirection = -newDirection;
        break;
      } else if (direction[i] > T(0) && i < 2) {
        break;
      }""")], "eq", "x", "") if False else None
bug("C19-canonical-sign-3", "C19", [("line.h", "          newDirection = -newDirection;\n        }\n        break;", "          newDirection = -newDirection;\n        }\n        if (direction[i] > constants<T>::almost_zero() || direction[i] < T(0)) {\n          break;\n        }")], "a tiny positive first component followed by a negative one", "opposite directions yield different canonical lines",
 """
  const vm::vec3d d = vm::normalize(vm::vec3d(1e-5, -1, 0));
  const vm::line3d a(vm::vec3d(0, 0, 0), d), b(vm::vec3d(0, 0, 0), -d);
  REQUIRE(a == b);
""")
bug("C19-equal-direction-only-point", "C19", [("line.h", "  return lhsC.point != rhsC.point || lhsC.direction != rhsC.direction;", "  return lhsC.point != rhsC.point || lhs.direction != rhs.direction;")], "the same line with opposite directions", "== and != are both true",
 """
  const vm::line3d a(vm::vec3d(1, 0, 0), vm::vec3d(0, 0, 1)), b(vm::vec3d(1, 0, 5), vm::vec3d(0, 0, -1));
  REQUIRE(a == b && !(a != b));
""")
bug("C20-at-index", "C20", [("plane.h", "        t += normal[i] * point[index++];", "        t += normal[i] * point[i < axis ? index++ : S - 2u];")], "eq for S=3", "x", "") if False else None
bug("C20-project-direction", "C20", [("plane.h", "    const auto d = dot(distance * normal - point, normal) / cos;", "    const auto d = (distance - dot(point, normal)) / abs(cos);")], "directions against the normal", "the projected point is not on the plane",
 """
  const vm::plane3d p(2.0, vm::vec3d::pos_z());
  const auto r = p.project_point(vm::vec3d(1, 1, 5), vm::vec3d(0, 0, -1));
  REQUIRE(near(r.z(), 2));
""")
bug("C20-from-points-normalise", "C20", [("plane.h", "  if (is_nan(sin_theta) || is_inf(sin_theta) || sin_theta < epsilon) {", "  if (is_nan(sin_theta) || is_inf(sin_theta) || sin_theta < epsilon || squared_length(normal) < constants<T>::almost_zero() * constants<T>::almost_zero()) {")], "small triangles", "points that are not colinear are refused",
 """
  const auto [ok, p] = vm::from_points(vm::vec3d(0, 0, 0), vm::vec3d(0, 0.01, 0), vm::vec3d(0.01, 0, 0));
  REQUIRE(ok);
""")
bug("C20-project-vector", "C20", [("plane.h", "    return project_point(anchor() + vector, direction) - anchor();", "    return project_point(vector, direction);")], "planes not through the origin", "a projected vector contains the offset of the plane",
 """
  const vm::plane3d p(2.0, vm::vec3d::pos_z());
  REQUIRE(vm::is_equal(p.project_vector(vm::vec3d(1, 1, 1), vm::vec3d::pos_z()), vm::vec3d(1, 1, 0), 1e-9));
""")
bug("C21-parallel-behind", "C21", [("distance.h", "        return line_distance<T>::Parallel(0, squared_distance(r.origin, p2), p2_on_r - p1_on_r);", "        return line_distance<T>::Parallel(0, squared_distance(r.origin, p2), p1_on_r - p2_on_r);")], "a segment behind a parallel ray whose far end point comes first", "the reported position is negative",
 """
  const vm::ray3d r(vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0));
  const auto d = vm::distance(r, vm::segment3d(vm::vec3d(-5, 1, 0), vm::vec3d(-2, 1, 0)));
  REQUIRE(near(d.position2, 3));
""")
bug("C21-ray-segment-end-clamp", "C21", [("distance.h", "    sN = sD;\n    tN = e + b;", "    sN = sD;\n    tN = e + (b < static_cast<T>(0.0) ? static_cast<T>(0.0) : b);")], "a ray closest to the end of a segment that runs against it", "the distance is not minimal",
 """
  const vm::ray3d r(vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0));
  const vm::segment3d s(vm::vec3d(3, 5, 0), vm::vec3d(4, 2, 0));
  const vm::ray3d q(vm::vec3d(10, 0, 0), vm::vec3d(-1, 0, 0));
  REQUIRE(near(vm::distance(r, s).distance, 2));
  REQUIRE(near(vm::distance(q, s).distance, 2));
""")
bug("C21-ray-ray-position", "C21", [("distance.h", "  return line_distance<T>::NonParallel(tc, squared_length(dP), sc);", "  return line_distance<T>::NonParallel(tc, squared_length(dP), abs(b) > static_cast<T>(0.9) ? tc : sc);")], "almost parallel rays", "the second position is the first one",
 """
  const vm::ray3d a(vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0)), b(vm::vec3d(-4, 2, 0), vm::normalize(vm::vec3d(4, -1, 0)));
  const auto d = vm::distance(a, b);
  const auto p = vm::point_at_distance(a, d.position1), q = vm::point_at_distance(b, d.position2);
  REQUIRE(near(vm::distance(p, q), d.distance));
""")
bug("C21-ray-line-parallel", "C21", [("distance.h", "    const T r_origin_on_l = distance_to_projected_point(l, r.origin); // can be negative", "    const T r_origin_on_l = max(static_cast<T>(0.0), distance_to_projected_point(l, r.origin));")], "a ray parallel to a line, whose origin is before the line's point", "the positions do not have the reported distance",
 """
  const auto d = vm::distance(vm::ray3d(vm::vec3d(-5, 1, 0), vm::vec3d(1, 0, 0)), vm::line3d(vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0)));
  REQUIRE(near(d.position2, -5));
""")
bug("C22-sphere-inside", "C22", [("intersection.h", "    return min(t0, t1);\n  } else {\n    return max(t0, t1);", "    return min(t0, t1);\n  } else if (squared_length(diff) > radius) {\n    return max(t0, t1);\n  } else {\n    return abs_max(t0, t1);")], "origins close to the center of a sphere, looking away from it", "a hit behind the origin is reported",
 """
  const auto d = vm::intersect_ray_sphere(vm::ray3d(vm::vec3d(0.5, 0, 0), vm::vec3d(1, 0, 0)), vm::vec3d(0, 0, 0), 2.0);
  REQUIRE(near(d, 1.5));
""")
bug("C22-torus-order", "C22", [("intersection.h", "    return safe_min(s1, s2, s3, s4);", "    return num > 2 ? safe_min(s1, s2, s3, s4) : s1;")], "two hits of which the first reported is not the closer or is behind the origin", "a farther hit or a miss is reported",
 """
  for (int i = 0; i < 64; ++i) {
    const double a = i * 0.09817477042468103;
    const vm::ray3d r(vm::vec3d(-20 * std::cos(a), -20 * std::sin(a), 0.25), vm::vec3d(std::cos(a), std::sin(a), 0));
    REQUIRE(near(vm::intersect_ray_torus(r, vm::vec3d(0, 0, 0), 5.0, 1.0), 20 - 5 - std::sqrt(1 - 0.0625), 1e-3));
  }
  for (double x : {4.5, 5.0, 5.5}) {
    const vm::ray3d r(vm::vec3d(x, 0, 0), vm::vec3d(0, 0, 1));
    REQUIRE(near(vm::intersect_ray_torus(r, vm::vec3d(0, 0, 0), 5.0, 1.0), std::sqrt(1 - (x - 5) * (x - 5)), 1e-3));
  }
""")
bug("C22-triangle-edge", "C22", [("intersection.h", "  if (v + w > T(1.0)) {", "  if (v + w > T(1.0) && v < T(1.0) && w < T(1.0)) {")], "rays past a corner of the triangle", "misses beyond the far corners are reported as hits",
 """
  const vm::ray3d r(vm::vec3d(1.5, 0.25, 1), vm::vec3d(0, 0, -1));
  REQUIRE(std::isnan(vm::intersect_ray_triangle(r, vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0), vm::vec3d(0, 1, 0))));
""")
bug("C22-plane-behind", "C22", [("intersection.h", "  if (s < -constants<T>::almost_zero()) {\n    return nan<T>();\n  }\n\n  return s;", "  if (s * d * d < -constants<T>::almost_zero()) {\n    return nan<T>();\n  }\n\n  return s;")], "planes behind the origin hit at a grazing angle", "a hit behind the origin is reported",
 """
  const auto n = vm::vec3d::pos_z();
  const auto d = vm::intersect_ray_plane(vm::ray3d(vm::vec3d(0, 0, 0.001), vm::normalize(vm::vec3d(1, 0, 0.02))), vm::plane3d(0.0, n));
  REQUIRE(std::isnan(d));
""")
bug("C23-plane-plane-near-parallel", "C23", [("intersection.h", "  if (is_nan(lineDirection)) {", "  if (is_nan(lineDirection) || abs(dot(p1.normal, p2.normal)) > static_cast<T>(0.99)) {")], "planes enclosing less than eight degrees", "no intersection line is reported",
 """
  const vm::plane3d a(1.0, vm::vec3d::pos_z()), b(2.0, vm::normalize(vm::vec3d(0.1, 0, 1)));
  REQUIRE(vm::intersect_plane_plane(a, b).direction != vm::vec3d::zero());
""")
bug("C23-line-plane-offset", "C23", [("intersection.h", "    return dot(p.distance * p.normal - l.point, p.normal) / f;", "    return (p.distance - dot(l.point, p.normal)) / (abs(f) > static_cast<T>(0.05) ? f : abs(f));")], "lines meeting the plane at a flat angle against its normal", "the point is not on the plane",
 """
  const vm::line3d l(vm::vec3d(0, 0, 5), vm::normalize(vm::vec3d(1, 0, -0.04)));
  const auto d = vm::intersect_line_plane(l, vm::plane3d(1.0, vm::vec3d::pos_z()));
  REQUIRE(near(vm::point_at_distance(l, d).z(), 1));
""")
bug("C23-crossing-side", "C23", [("intersection.h", "  const T x = -v0.y() * (v1.x() - v0.x()) / (v1.y() - v0.y()) + v0.x();", "  const T x = (v0.x() + v1.x()) / T(2.0) - (v0.y() + v1.y()) * (v1.x() - v0.x()) / (v1.y() - v0.y()) / T(2.0) * (v0.y() + v1.y() > T(0.0) ? T(0.9) : T(1.0));")], "points close to a slanted edge", "points near a slanted edge are classified wrongly",
 """
  const std::vector<vm::vec3d> t{vm::vec3d(0, 0, 0), vm::vec3d(10, 0, 0), vm::vec3d(0, 10, 0)};
  for (int x = 1; x < 20; ++x) for (int y = 1; y < 20; ++y)
    if (x + y != 20) REQUIRE(vm::polygon_contains_point(vm::vec3d(x / 2.0, y / 2.0, 0), t.begin(), t.end()) == (x + y < 20));
  const std::vector<vm::vec3d> s{vm::vec3d(0, 0, 0), vm::vec3d(0, 10, 0), vm::vec3d(-10, 0, 0)};
  for (int x = 1; x < 20; ++x) for (int y = 1; y < 20; ++y)
    if (x + y != 20) REQUIRE(vm::polygon_contains_point(vm::vec3d(-x / 2.0, y / 2.0, 0), s.begin(), s.end()) == (x + y < 20));
""")
bug("C24-anchor-tie", "C24", [("convex_hull.h", "(m_points[i].y() == m_points[anchor].y() && m_points[i].x() > m_points[anchor].x())) {", "(m_points[i].y() == m_points[anchor].y() && abs(m_points[i].x()) > m_points[anchor].x())) {")], "several lowest points, the leftmost with the largest magnitude and negative", "the anchor is not extreme in the sorting order, so the hull is wrong",
 """
  const std::vector<vm::vec3d> p{vm::vec3d(1, 0, 0), vm::vec3d(-1, 0, 0), vm::vec3d(-3, 0, 0), vm::vec3d(0, 2, 0), vm::vec3d(2, 2, 0)};
  const auto h = vm::convex_hull(p);
  REQUIRE(h.size() == 4);
  for (std::size_t i = 0; i < h.size(); ++i) { const auto& a = h[i]; const auto& b = h[(i + 1) % h.size()]; const auto& d = h[(i + 2) % h.size()]; REQUIRE((b.x() - a.x()) * (d.y() - b.y()) - (b.y() - a.y()) * (d.x() - b.x()) > 0); }
""")
bug("C24-erase-nearer", "C24", [("convex_hull.h", "          return dyl > dyr;", "          return dyl < dyr;")], "points straight above or below the anchor", "the farther of two points in the anchor's column is dropped",
 """
  const std::vector<vm::vec3d> p{vm::vec3d(0, 0, 0), vm::vec3d(0, 1, 0), vm::vec3d(0, 2, 0), vm::vec3d(-3, 2, 0), vm::vec3d(-3, 1, 0)};
  const auto h = vm::convex_hull(p);
  bool found = false;
  for (const auto& v : h) found = found || v == vm::vec3d(0, 2, 0);
  REQUIRE(found);
""")
bug("C24-is-left-epsilon", "C24", [("convex_hull.h", "    if (result < 0.0) {\n      return -1;\n    } else if (result > 0.0) {", "    if (result < -1e-3) {\n      return -1;\n    } else if (result > 1e-3) {")], "point sets smaller than the epsilon", "small hulls lose vertices",
 """
  const std::vector<vm::vec3d> p{vm::vec3d(0, 0, 0), vm::vec3d(0.25, 0.0005, 0), vm::vec3d(0.5, 0.002, 0), vm::vec3d(0.25, 4, 0)};
  REQUIRE(vm::convex_hull(p).size() == 4);
""")
bug("C25-bernstein-outside", "C25", [("bezier_surface.h", "    return static_cast<T>(2) * (x - (x * x));", "    return static_cast<T>(2) * x * (x < static_cast<T>(0.9375) ? static_cast<T>(1) - x : (static_cast<T>(1) - x) * static_cast<T>(1.03125));")], "parameters close to one", "the weights do not add up to one near the border",
 """
  std::array<std::array<vm::vec3d, 3>, 3> g;
  for (auto& r : g) for (auto& p : r) p = vm::vec3d(1, 1, 1);
  REQUIRE(near(vm::evaluate_quadratic_bezier_surface(g, 0.96875, 0.5).x(), 1, 1e-9));
""")
bug("C26-exponent-separator", "C26", [("vec_io.h", '  constexpr auto blank = " \\t\\n\\r()";\n\n  auto result', '  constexpr auto blank = " \\t\\n\\r()e";\n\n  auto result')], "x", "x", "") if False else None
bug("C26-mat-print-order", "C26", [("mat_io.h", "      stream << mat[c][r];", "      stream << mat[R == C ? c : r % C][R == C ? r : c % R];")], "non-square matrices", "elements are printed in the wrong order",
 """
  const vm::mat<double, 2, 3> m(1, 2, 3, 4, 5, 6);
  std::ostringstream s; s << m;
  REQUIRE(s.str() == "1 2 3 4 5 6");
""")
bug("C26-parse-all-tail", "C26", [("vec_io.h", "    pos = str.find_first_of(blank, pos);\n    pos = str.find_first_not_of(blank, pos);", "    pos = str.find_first_of(blank, pos);\n    pos = str.find_first_not_of(blank, pos);\n    if (pos != std::string::npos && str.size() - pos < 2 * S) {\n      pos = std::string::npos;\n    }")], "a last item written with the least possible number of characters", "the last item is dropped",
 """
  std::vector<vm::vec3d> v;
  vm::parse_all<double, 3>("1 2 3, 4 5 6", std::back_inserter(v));
  REQUIRE(v.size() == 2 && v[1] == vm::vec3d(4, 5, 6));
""")
bug("C26-plane-print", "C26", [("bbox_io.h", 'stream << "{ min: (" << bbox.min << "), max: (" << bbox.max << ") }";', 'stream << "{ min: (" << bbox.min << "), max: (" << (bbox.is_empty() ? bbox.min : bbox.max) << ") }";')], "boxes that are flat in some dimension only", "the maximum is printed wrongly",
 """
  std::ostringstream s; s << vm::bbox2d(vm::vec2d(0, 1), vm::vec2d(3, 1));
  REQUIRE(s.str() == "{ min: (0 1), max: (3 1) }");
""")
bug("C27-scalar-left-epsilon", "C27", [("approx.h", "    return lhs.m_value < (rhs - lhs.m_epsilon);", "    return lhs.m_value <= (rhs - lhs.m_epsilon);")], "a value exactly at the upper end of the tolerance", "a value both equals and exceeds its approximation",
 "  const vm::approx<double> a(1.0, 0.25);\n  REQUIRE(a == 1.25 && !(a < 1.25));\n")
bug("C27-list-prefix", "C27", [("approx.h", "  for (size_t i = 0u; i < lhs.size(); ++i) {\n    if (lhs[i] != rhs[i]) {", "  for (size_t i = 0u; i + 1u <= lhs.size(); i += 1u + (i == 6u)) {\n    if (lhs[i] != rhs[i]) {")], "lists of at least eight values that differ in the eighth only", "different lists are equal",
 """
  std::vector<double> v(10, 1.0);
  std::vector<vm::approx<double>> w(10, vm::approx<double>(1.0));
  v[7] = 5;
  REQUIRE(!(v == w));
""")
bug("C28-parallel-scale", "C28", [("vec.h", """  const T cos = dot(normalize(lhs), normalize(rhs));
  return is_equal(abs(cos), T(1.0), epsilon);""", """  const T cos = dot(lhs, rhs);
  const T len = length(lhs) * length(rhs);
  return is_equal(abs(cos), len, epsilon);""")], "directions that are not unit vectors", "parallelism depends on the lengths of the arguments",
 """
  REQUIRE(!vm::is_parallel(vm::vec3d(0.001, 0, 0), vm::vec3d(0, 0.001, 0)));
  REQUIRE(vm::is_parallel(vm::vec3d(1000, 100, 0), vm::vec3d(1000.01, 100, 0)));
""")
bug("C28-is-integral-halves", "C28", [("vec.h", "    if (abs(v[i] - round(v[i])) > epsilon) {", "    if (abs(fract(v[i])) > epsilon) {")], "values just below an integer and a positive tolerance", "values within the tolerance below an integer are not integral",
 "  REQUIRE(vm::is_integral(vm::vec3d(0.999, 1, 2), 0.01));\n")
bug("C28-between-start", "C28", [("vec.h", """    const auto d = dot(toEnd, normalize(toStart));
    return d < T(0.0);""", """    const auto d = dot(toEnd, normalize(toStart));
    return d < T(0.0) && squared_length(toStart) <= squared_length(end - start);""")], "eq", "x", "") if False else None
bug("C28-between-short", "C28", [("vec.h", """    const auto d = dot(toEnd, normalize(toStart));
    return d < T(0.0);""", """    const auto d = dot(toEnd, toStart);
    return d < T(0.0) && !is_zero(d, constants<T>::almost_zero() * constants<T>::almost_zero());""")], "short segments", "points between the ends of a short segment are refused",
 "  REQUIRE(vm::is_between(vm::vec3d(0.0005, 0, 0), vm::vec3d(0, 0, 0), vm::vec3d(0.001, 0, 0)));\n")
