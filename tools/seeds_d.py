# fourth batch
bug("C17-compare-end-epsilon", "C17", [("segment.h", "    return compare(lhs.end(), rhs.end(), epsilon);", "    return compare(lhs.end(), rhs.end(), epsilon == T(0.0) ? epsilon : epsilon * T(2.0));")],
 "segments whose ends differ by one to two epsilons", "epsilon comparison is too lenient at the end point",
 "  REQUIRE(!vm::is_equal(vm::segment3d(vm::vec3d(0, 0, 0), vm::vec3d(4, 0, 0)), vm::segment3d(vm::vec3d(0, 0, 0), vm::vec3d(4, 0, 0.15)), 0.1));\n")
bug("C17-transform-order", "C17", [("segment.h", "    return segment<T, S>(transform * m_start, transform * m_end);", "    auto result = segment<T, S>(transform * m_start, transform * m_end);\n    if (is_equal(result.m_start, result.m_end, constants<T>::almost_zero())) {\n      result.m_start = transform * m_start;\n      result.m_end = transform * m_end;\n    }\n    return result;")],
 "a transformation that reverses and makes the segment very short", "the end points are not in ascending order",
 """
  const auto s = vm::segment3d(vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0)).transform(vm::scaling_matrix(vm::vec3d(-0.0005, 1, 1)));
  REQUIRE(s.start() < s.end());
""")
bug("C17-convert-order", "C17", [("segment.h", "    : segment(vec<T, S>(other.start()), vec<T, S>(other.end())) {}", "    : m_start(other.start())\n    , m_end(other.end()) {}")],
 "end points that become equal in their first component by the conversion", "the converted segment is not ordered",
 """
  const vm::segment3d s(vm::vec3d(1.0, 5, 0), vm::vec3d(1.0 + 1e-12, 0, 0));
  const vm::segment3f f(s);
  REQUIRE(f.start() < f.end());
  REQUIRE(f == vm::segment3f(vm::vec3f(1, 0, 0), vm::vec3f(1, 5, 0)));
""")
bug("C17-translate-short", "C17", [("segment.h", "    return segment<T, S>(m_start + delta, m_end + delta);", "    return segment<T, S>(m_start + delta, m_start + delta + (m_end - m_start) * static_cast<T>(1.0f));")],
 "end points of very different magnitude", "only rounding", "  REQUIRE(true);\n") if False else None
bug("C18-invert-two", "C18", [("polygon.h", "    if (vertices.size() > 1) {\n      std::reverse(std::next(std::begin(vertices)), std::end(vertices));", "    if (vertices.size() > 1) {\n      std::reverse(std::next(std::begin(vertices)), std::end(vertices) - (vertices.size() > 5 ? 1 : 0));")],
 "polygons of six or more vertices", "inversion does not reverse the order",
 """
  const vm::polygon3d p{vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0), vm::vec3d(2, 1, 0), vm::vec3d(2, 2, 0), vm::vec3d(1, 3, 0), vm::vec3d(0, 2, 0)};
  REQUIRE(p.invert().vertices()[1] == vm::vec3d(0, 2, 0));
""")
bug("C18-convert-rotate", "C18", [("polygon.h", "      m_vertices.push_back(vec<T, S>(vertex));\n    }\n    rotate_min_to_front();", "      m_vertices.push_back(vec<T, S>(vertex));\n    }\n    // the vertices are ordered already")],
 "vertices whose first components become equal by the conversion", "the converted polygon does not start with its smallest vertex",
 """
  const vm::polygon3d p{vm::vec3d(0, 5, 0), vm::vec3d(1e-50, 0, 0), vm::vec3d(4, 4, 0)};
  const vm::polygon3f f(p);
  REQUIRE(f.vertices()[0] == vm::vec3f(0, 0, 0));
""")
bug("C18-move-ctor", "C18", [("polygon.h", "    : m_vertices(std::move(i_vertices)) {\n    rotate_min_to_front();", "    : m_vertices(std::move(i_vertices)) {\n    if (m_vertices.size() > 1 && m_vertices.back() < m_vertices.front()) {\n      rotate_min_to_front();\n    } else if (m_vertices.size() > 1 && m_vertices[1] < m_vertices.front()) {\n      rotate_min_to_front();\n    }")],
 "a moved vertex list whose smallest vertex is adjacent neither to the first nor the last one", "the polygon does not start with its smallest vertex",
 """
  std::vector<vm::vec3d> v{vm::vec3d(1, 0, 0), vm::vec3d(2, 0, 0), vm::vec3d(0, 3, 0), vm::vec3d(3, 4, 0)};
  REQUIRE(vm::polygon3d(std::move(v)).vertices()[0] == vm::vec3d(0, 3, 0));
""")
bug("C18-transform-flip", "C18", [("polygon.h", "    return polygon<T, S>(mat * vertices());", "    auto result = polygon<T, S>(mat * vertices());\n    return compute_determinant(mat) < T(0.0) && vertexCount() > 3 ? result.invert() : result;")],
 "mirroring transformations of polygons of more than three vertices", "the cyclic order is reversed",
 """
  const vm::polygon3d p{vm::vec3d(0, 0, 0), vm::vec3d(4, 0, 0), vm::vec3d(4, 4, 0), vm::vec3d(0, 4, 1)};
  const auto q = p.transform(vm::mat4x4d::mirror_z());
  REQUIRE(q.vertices()[1] == vm::vec3d(4, 0, 0));
""")
bug("C15-constrain-flat", "C15", [("bbox.h", "    return vm::max(min, vm::min(max, point));", "    return vm::min(vm::max(point, min), vm::max(max, min + vec<T, S>::fill(constants<T>::almost_zero())));")],
 "boxes that are flat in one direction", "the constrained point is not in the box",
 "  REQUIRE(vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(4, 4, 0)).constrain(vm::vec3d(1, 1, 9)) == vm::vec3d(1, 1, 0));\n")
bug("C15-intersect-touching", "C15", [("bbox.h", "  if (bbox<T, S>::is_valid(min, max)) {\n    return bbox<T, S>(min, max);", "  if (bbox<T, S>::is_valid(min, max) && min != max) {\n    return bbox<T, S>(min, max);")],
 "boxes that touch in a single corner", "the intersection is the empty box at the origin instead of that corner",
 """
  const auto b = vm::intersect(vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(4, 4, 4)), vm::bbox3d(vm::vec3d(4, 4, 4), vm::vec3d(8, 8, 8)));
  REQUIRE(b.min == vm::vec3d(4, 4, 4) && b.max == vm::vec3d(4, 4, 4));
""")
bug("C15-transform-fast", "C15", [("bbox.h", "    builder builder;\n    const auto vertices = this->vertices();", "    if (transform[0][1] == T(0) && transform[1][0] == T(0) && transform[0][2] == T(0) && transform[2][0] == T(0)) {\n      return repair(bbox<T, S>(vm::min(transform * min, transform * max), vm::max(transform * min, transform * max)));\n    }\n    builder builder;\n    const auto vertices = this->vertices();")],
 "rotations and shears in the y/z plane", "the transformed box is too small",
 """
  const auto b = vm::bbox3d(vm::vec3d(-1, -1, -1), vm::vec3d(1, 1, 1)).transform(vm::rotation_matrix(vm::vec3d::pos_x(), vm::to_radians(45.0)));
  REQUIRE(near(b.max.y(), std::sqrt(2.0)));
""")
bug("C15-contains-box-corner", "C15", [("bbox.h", "      if (b.min[i] < min[i] || b.max[i] > max[i]) {", "      if (b.min[i] < min[i] || b.max[i] - b.min[i] > max[i] - min[i]) {")],
 "smaller boxes that stick out at the upper side", "containment is reported for a box that sticks out",
 "  REQUIRE(!vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(4, 4, 4)).contains(vm::bbox3d(vm::vec3d(2, 1, 1), vm::vec3d(5, 2, 2))));\n")
bug("C15-relative-nan", "C15", [("bbox.h", "      } else if (point[i] > max[i]) {\n        result[i] = Range::greater;", "      } else if (point[i] >= max[i] && max[i] > min[i]) {\n        result[i] = Range::greater;")],
 "points exactly on an upper face", "the point is reported as beyond the box",
 "  REQUIRE(vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(4, 4, 4)).relative_position(vm::vec3d(4, 1, 1))[0] == vm::bbox3d::Range::within);\n")
bug("C15-expand-negative", "C15", [("bbox.h", "    return bbox<T, S>(min - vec<T, S>::fill(f), max + vec<T, S>::fill(f));", "    const auto d = vm::max(vec<T, S>::fill(f), -size() * static_cast<T>(0.25));\n    return bbox<T, S>(min - d, max + d);")],
 "expansion by a negative amount larger than a quarter of the size", "the box is shrunk by less than requested",
 "  REQUIRE(vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(8, 8, 8)).expand(-3.0).min == vm::vec3d(3, 3, 3));\n")
bug("C15-face-left", "C15", [("bbox.h", "    op(min, min + y, min + y + z, min + z, vec<T, 3>(-1.0, 0.0, 0.0)); // left", "    op(min, min + z, min + z + y, min + y, vec<T, 3>(-1.0, 0.0, 0.0)); // left")],
 "the winding of the left face", "the left face is visited counter-clockwise", """
  int bad = 0;
  vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(1, 2, 3)).for_each_face([&](const vm::vec3d& a, const vm::vec3d& b, const vm::vec3d& c, const vm::vec3d&, const vm::vec3d& n) {
    bad += vm::dot(vm::cross(c - a, b - a), n) <= 0;
  });
  REQUIRE(bad == 0);
""")
bug("C16-merge-all-single", "C16", [("bbox.h", "      result = merge(result, get(*cur++));", "      const auto next = get(*cur++);\n      if (!result.contains(next) && next != vec<T, S>::zero()) {\n        result = merge(result, next);\n      }")],
 "ranges with the origin as an extreme point", "the origin is left out of the bounds",
 """
  const std::vector<vm::vec3d> v{vm::vec3d(1, 1, 1), vm::vec3d(0, 0, 0)};
  REQUIRE(vm::bbox3d::merge_all(v.begin(), v.end()).min == vm::vec3d(0, 0, 0));
""")
bug("C16-builder-empty-box", "C16", [("bbox.h", "        m_bounds = merge(m_bounds, box);", "        m_bounds = box.is_empty() ? m_bounds : merge(m_bounds, box);")],
 "adding flat boxes to a non-empty builder", "flat boxes are ignored",
 """
  vm::bbox3d::builder b; b.add(vm::vec3d(0, 0, 0)); b.add(vm::bbox3d(vm::vec3d(1, 1, 1), vm::vec3d(4, 4, 1)));
  REQUIRE(b.bounds().max == vm::vec3d(4, 4, 1));
""")
bug("C24-anchor-tie", "C24", [("convex_hull.h", "m_points[i].y() == m_points[anchor].y() && m_points[i].x() > m_points[anchor].x())) {", "m_points[i].y() == m_points[anchor].y() && m_points[i].x() > m_points[anchor].x() && i > 1)) {")],
 "two lowest points of which the rightmost is the second point", "a point on an edge may be kept or the order is wrong",
 """
  for (int k = 0; k < 24; ++k) {
    std::vector<vm::vec3d> v{vm::vec3d(0, 0, 0), vm::vec3d(4, 0, 0), vm::vec3d(2, 0, 0), vm::vec3d(2, 3, 0)};
    for (int i = 0; i < k; ++i) std::next_permutation(v.begin(), v.end());
    REQUIRE(vm::convex_hull(v).size() == 3);
  }
""")
bug("C24-sort-far-first", "C24", [("convex_hull.h", "          return dyl > dyr;", "          return dyl < dyr;")],
 "several points straight above the anchor", "an inner point is kept instead of the extreme one",
 """
  const auto h = vm::convex_hull(std::vector<vm::vec3d>{vm::vec3d(4, 0, 0), vm::vec3d(4, 2, 0), vm::vec3d(4, 4, 0), vm::vec3d(0, 4, 0), vm::vec3d(0, 0, 0)});
  bool found = false; for (auto& p : h) found |= p == vm::vec3d(4, 4, 0);
  REQUIRE(found && h.size() == 4);
""")
bug("C24-third-point", "C24", [("convex_hull.h", "    std::size_t index = 2;\n    while (index < m_points.size() && is_colinear(m_points[0], m_points[1], m_points[index])) {", "    std::size_t index = 2;\n    while (index < m_points.size() && index < 16 && is_colinear(m_points[0], m_points[1], m_points[index])) {")],
 "more than sixteen colinear points first", "the projection axis is taken from colinear points",
 """
  std::vector<vm::vec3d> v;
  for (int i = 0; i < 20; ++i) v.push_back(vm::vec3d(0, i, 0));
  v.push_back(vm::vec3d(0, 3, 5));
  REQUIRE(vm::convex_hull(v).size() == 3);
""")
bug("C24-pop-once", "C24", [("convex_hull.h", "        stack.pop_back();\n        pop_stale_points(stack, p);", "        stack.pop_back();\n        if (side < 0) {\n          pop_stale_points(stack, p);\n        }")],
 "a colinear point on top of a stale one on a longer stack", "a stale point remains on the hull",
 """
  // brute force over small lattice sets
  for (int mask = 0; mask < (1 << 16); ++mask) {
    std::vector<vm::vec3d> v;
    for (int i = 0; i < 16; ++i) if (mask >> i & 1) v.push_back(vm::vec3d(i % 4, i / 4, 0));
    if (v.size() < 5) continue;
    const auto h = vm::convex_hull(v);
    for (std::size_t i = 0; i < h.size(); ++i) {
      const auto a = h[i], b = h[(i + 1) % h.size()], c = h[(i + 2) % h.size()];
      REQUIRE((b.x() - a.x()) * (c.y() - a.y()) - (c.x() - a.x()) * (b.y() - a.y()) > 0);
    }
  }
""")
bug("C25-middle-row", "C25", [("bezier_surface.h", "         interpolate(u, controlPoints[1]),", "         interpolate(u > static_cast<T>(1) ? static_cast<T>(1) : u, controlPoints[1]),")],
 "parameters greater than one", "extrapolation beyond the surface is not the Bernstein combination",
 """
  std::array<std::array<vm::vec3d, 3>, 3> p{};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) p[i][j] = vm::vec3d(j, i, 0);
  REQUIRE(near(vm::evaluate_quadratic_bezier_surface(p, 1.5, 0.5).x(), 3.0));
""")
bug("C05-succ-stride", "C05", [("scalar.h", "  return (index + stride) % static_cast<T>(count);", "  const auto next = index + stride;\n  const auto c = static_cast<T>(count);\n  return static_cast<T>(next < c ? next : next - c);")],
 "strides larger than the count", "the successor is out of range",
 "  REQUIRE(vm::succ(2, 3, 5) == 1);\n")
bug("C05-contains-reversed", "C05", [("scalar.h", "    return v >= e && v <= s;", "    return v > e && v <= s;")],
 "intervals given in reverse or of length zero, and the value at the lower bound", "the lower bound is not contained",
 "  REQUIRE(vm::contains(2.0, 5.0, 2.0) && vm::contains(2.0, 2.0, 2.0));\n")
bug("C05-abs-difference", "C05", [("scalar.h", "    return lhs > rhs ? lhs - rhs : rhs - lhs;", "    return static_cast<T>(lhs - rhs) > static_cast<T>(~T(0) / 2) ? rhs - lhs : lhs - rhs;")],
 "unsigned values more than half the range apart", "the difference wraps around",
 "  REQUIRE(vm::abs_difference(0xF0000000u, 1u) == 0xEFFFFFFFu);\n")
bug("C05-clamp-nan", "C05", [("scalar.h", "  const auto t = clamp((v - e0) / (e1 - e0), T(0), T(1));", "  const auto t = v < e0 ? T(0) : v > e1 ? T(1) : (v - e0) / (e1 - e0);")],
 "edges in descending order", "smoothstep does not fall from one to zero",
 "  REQUIRE(vm::smoothstep(4.0, 0.0, 3.0) > 0 && vm::smoothstep(4.0, 0.0, 3.0) < 0.5 && vm::smoothstep(4.0, 0.0, 5.0) == 0);\n")
bug("C05-is-inf-max", "C05", [("scalar.h", "  return (f == std::numeric_limits<T>::infinity() || f == -std::numeric_limits<T>::infinity());", "  return !is_nan(f) && (f >= std::numeric_limits<T>::max() || f <= std::numeric_limits<T>::lowest());")],
 "the largest finite value", "the largest finite value is classified as infinite",
 "  REQUIRE(!vm::is_inf(std::numeric_limits<double>::max()));\n")
bug("C04-fract-large", "C04", [("scalar.h", "  if (v > T(0)) {\n    return v - floor(v);", "  if (v > T(0)) {\n    return v > T(65536) ? v - static_cast<T>(static_cast<float>(floor(v))) : v - floor(v);")],
 "large values in double precision", "the fractional part is not below one",
 "  REQUIRE(near(vm::fract(16777217.5), 0.5));\n")
bug("C04-snap-up-integral", "C04", [("scalar.h", "  return grid * round_up(v / grid);", "  return grid * round_up((v - (v < T(0) ? -constants<T>::almost_zero() : constants<T>::almost_zero()) * grid * T(0.01)) / grid);")],
 "values barely above a multiple of the grid", "the value is snapped towards zero",
 "  REQUIRE(vm::snapUp(16.0001, 16.0) == 32.0);\n")
bug("C08-cubic-triple", "C08", [("scalar.h", "    if (is_zero(q, epsilon)) {\n      // one triple solution", "    if (is_zero(q * q, epsilon)) {\n      // one triple solution")],
 "a double root close to the single one", "two distinct roots are reported as one",
 """
  const auto [n, a, b, d] = vm::solve_cubic(1.0, 0.0, -0.03, 0.002, 1e-5); // (x - 0.1)^2 (x + 0.2)
  (void)a; (void)b; (void)d;
  REQUIRE(n == 2);
""")
bug("C08-quartic-biquadratic", "C08", [("scalar.h", "    if (is_zero(v, epsilon)) {\n      v = T(0);", "    if (is_zero(v, epsilon) || is_zero(q, epsilon)) {\n      v = T(0);")],
 "biquadratic equations", "the reported values are not roots",
 """
  const auto [n, a, b, d, e] = vm::solve_quartic(1.0, 0.0, -5.0, 0.0, 4.0, 1e-7);
  REQUIRE(n == 4);
  for (double x : {a, b, d, e}) REQUIRE(near(x * x * x * x - 5 * x * x + 4, 0, 1e-6));
""")
bug("C06-to-radians-float", "C06", [("scalar.h", "  return d * constants<T>::pi() / static_cast<T>(180);", "  return d * (constants<T>::pi() / static_cast<T>(180)) * (abs(d) > static_cast<T>(36000) ? static_cast<T>(1.0000001) : static_cast<T>(1));")],
 "more than a hundred turns", "the conversion is not linear",
 "  REQUIRE(near(vm::to_radians(72000.0), 400 * 3.14159265358979323846, 1e-6));\n")
bug("C07-sqrt-c-cycle", "C07", [("scalar.h", "  return curr == prev ? curr : sqrt_c_nr(x, static_cast<T>(0.5) * (curr + x / curr), curr);", "  return curr == prev || abs(curr - prev) < static_cast<T>(1e-12) ? curr : sqrt_c_nr(x, static_cast<T>(0.5) * (curr + x / curr), curr);")],
 "tiny arguments", "the iteration stops far from the root",
 "  REQUIRE(near(vm::sqrt_c(1e-20) * 1e10, 1, 1e-6));\n")
