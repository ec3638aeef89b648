# fifth batch: vectors, matrices, io, approx
bug("C01-compare-large-dims", "C01", [("vec.h", "      if (lhs[i] < rhs[i] - epsilon) {\n        return -1;", "      if (i >= 4 ? lhs[i] < rhs[i] : lhs[i] < rhs[i] - epsilon) {\n        return -1;")],
 "vectors of more than four components and an epsilon", "epsilon is ignored in the fifth component", "  REQUIRE(vm::is_equal(vm::vec<double, 5>(0, 0, 0, 0, 0), vm::vec<double, 5>(0, 0, 0, 0, 0.05), 0.1));\n")
bug("C01-range-epsilon", "C01", [("vec.h", "    const auto cmp = compare(*lhsCur, *rhsCur, epsilon);", "    const auto cmp = compare(*lhsCur, *rhsCur, std::next(lhsCur) == lhsEnd ? T(0.0) : epsilon);")],
 "ranges compared with an epsilon that differ slightly in the last element", "the last element is compared exactly",
 "  const std::vector<vm::vec3d> a{vm::vec3d(0, 0, 0), vm::vec3d(1, 1, 1)}, b{vm::vec3d(0, 0, 0), vm::vec3d(1, 1, 1.05)};\n  REQUIRE(vm::compare(a.begin(), a.end(), b.begin(), b.end(), 0.1) == 0);\n")
bug("C01-equal-infinite", "C01", [("vec.h", "constexpr bool operator==(const vec<T, S>& lhs, const vec<T, S>& rhs) {\n  return compare(lhs, rhs) == 0;", "constexpr bool operator==(const vec<T, S>& lhs, const vec<T, S>& rhs) {\n  for (size_t i = 0; i < S; ++i) {\n    if (lhs[i] - rhs[i] != T(0)) {\n      return false;\n    }\n  }\n  return true;")],
 "vectors with infinite or NaN components", "a vector is not equal to itself", "  const auto v = vm::vec3d(0, std::numeric_limits<double>::infinity(), 0);\n  REQUIRE(v == v);\n")
bug("C01-le-nan", "C01", [("vec.h", "constexpr bool operator<=(const vec<T, S>& lhs, const vec<T, S>& rhs) {\n  return compare(lhs, rhs) <= 0;", "constexpr bool operator<=(const vec<T, S>& lhs, const vec<T, S>& rhs) {\n  for (size_t i = 0; i < S; ++i) {\n    if (lhs[i] != rhs[i]) {\n      return lhs[i] < rhs[i];\n    }\n  }\n  return true;")],
 "NaN components", "<= disagrees with < and ==", "  const auto v = vm::vec3d(0, vm::nan<double>(), 0);\n  REQUIRE(v <= v);\n  REQUIRE(vm::vec3d(0, 1, 0) <= v);\n")

bug("C02-axis-tiny", "C02", [("vec.h", "  return vector[index] < static_cast<T>(0) ? -result : result;", "  return vector[index] < -constants<T>::almost_zero() ? -result : result;")],
 "vectors with tiny negative components", "the axis points the wrong way", "  REQUIRE(vm::get_abs_max_component_axis(vm::vec3d(0, -1e-5, 0)) == vm::vec3d(0, -1, 0));\n")
bug("C02-abs-max-nearly-equal", "C02", [("vec.h", "  constexpr auto cmp = [](const auto& lhs, const auto& rhs) {\n    return abs(lhs.element) < abs(rhs.element);", "  constexpr auto cmp = [](const auto& lhs, const auto& rhs) {\n    return abs(rhs.element) - abs(lhs.element) > constants<T>::almost_zero();")],
 "components that differ by less than a thousandth", "a smaller component is reported", "  for (int i = 0; i < 3; ++i) {\n    vm::vec3d v(1, 1, 1);\n    v[std::size_t(i)] = 1.0005;\n    REQUIRE(vm::find_abs_max_component(v) == std::size_t(i));\n  }\n")
bug("C03-convert-smaller", "C03", [("vec.h", "    for (std::size_t i = 0u; i < vm::min(S, V); ++i) {\n      v[i] = static_cast<T>(other[i]);", "    for (std::size_t i = 0u; i < vm::min(S, V); ++i) {\n      v[i] = static_cast<T>(static_cast<float>(other[i]));")],
 "conversions between double vectors of different sizes or between integers and doubles", "precision is lost", "  REQUIRE((vm::vec<double, 2>(vm::vec3d(1.1, 2.2, 3.3)) == vm::vec<double, 2>(1.1, 2.2)));\n")
bug("C03-extend-two", "C03", [("vec.h", "    for (std::size_t i = 0u; i < S - SS; ++i) {\n      v[i + SS] = t[i];", "    for (std::size_t i = 0u; i < S - SS; ++i) {\n      v[i + SS] = t[S - SS - 1u - i];")],
 "a vector extended by two or more components", "the new components are reversed", "  REQUIRE(vm::vec4d(vm::vec2d(1, 2), 3, 4) == vm::vec4d(1, 2, 3, 4));\n")
bug("C03-normalize-short", "C03", [("vec.h", "template <typename T, std::size_t S> vec<T, S> normalize(const vec<T, S>& vec) {\n  return vec / length(vec);", "template <typename T, std::size_t S> vec<T, S> normalize(const vec<T, S>& vec) {\n  const auto l2 = squared_length(vec);\n  return is_zero(l2 - T(1.0), constants<T>::almost_zero()) ? vec : vec / sqrt(l2);")],
 "vectors that are nearly, but not exactly unit vectors", "the result is not a unit vector", "  REQUIRE(near(vm::length(vm::normalize(vm::vec3d(1.0004, 0, 0))), 1.0, 1e-9));\n")
bug("C03-cartesian-near-one", "C03", [("vec.h", "    result[i] = point[i] / point[S - 1];", "    result[i] = is_equal(point[S - 1], T(1.0), constants<T>::almost_zero()) ? point[i] : point[i] / point[S - 1];")],
 "homogeneous coordinates close to one", "the coordinates are not divided", "  REQUIRE(near(vm::to_cartesian_coords(vm::vec4d(2000, 0, 0, 1.0005)).x(), 2000 / 1.0005, 1e-9));\n")
bug("C03-step-order", "C03", [("vec.h", "    result[i] = step(e[i], v[i]);", "    result[i] = i < 3 ? step(e[i], v[i]) : step(v[i], e[i]);")],
 "the fourth component", "step is reversed", "  REQUIRE(vm::step(vm::vec4d(0, 0, 0, 0), vm::vec4d(1, 1, 1, 1)) == vm::vec4d(1, 1, 1, 1));\n")
bug("C03-divide-reciprocal", "C03", [("vec.h", "constexpr vec<T, S> operator/(const vec<T, S>& lhs, const T rhs) {\n  vec<T, S> result;\n  for (size_t i = 0; i < S; ++i) {\n    result[i] = lhs[i] / rhs;", "constexpr vec<T, S> operator/(const vec<T, S>& lhs, const T rhs) {\n  vec<T, S> result;\n  const auto f = T(1) / rhs;\n  for (size_t i = 0; i < S; ++i) {\n    result[i] = lhs[i] * f;")],
 "integer vectors or denormal divisors", "integer division yields zero", "  REQUIRE((vm::vec<int, 3>(6, 8, 10) / 2 == vm::vec<int, 3>(3, 4, 5)));\n")
bug("C03-min-rest", "C03", [("vec.h", "    result[i] = min(lhs[i], rhs[i], rest[i]...);", "    result[i] = min(lhs[i], rhs[i], rest[sizeof...(Rest) > 1 ? 0 : i]...);")],
 "the minimum of four or more vectors", "the first component of the further vectors is used for all components", "  REQUIRE(vm::min(vm::vec2d(5, 5), vm::vec2d(5, 5), vm::vec2d(1, 5), vm::vec2d(5, 5)) == vm::vec2d(1, 5));\n")
bug("C03-list-plus-order", "C03", [("vec_ext.h", "  auto result = std::array<vec<T, S>, N>{};\n  for (std::size_t i = 0; i < N; ++i) {\n    result[i] = lhs[i] + rhs;", "  auto result = lhs;\n  for (std::size_t i = 0; i + 1 < N; ++i) {\n    result[i] = lhs[i] + rhs;\n  }\n  if constexpr (N == 1 || N > 3) {\n    result[N - 1] = lhs[N - 1] + rhs;")],
 "arrays of two or three vectors", "the last vector is not translated", "  const std::array<vm::vec3d, 2> a{vm::vec3d(1, 1, 1), vm::vec3d(2, 2, 2)};\n  REQUIRE((a + vm::vec3d(1, 0, 0))[1] == vm::vec3d(3, 2, 2));\n")
bug("C03-average-mapped", "C03", [("vec.h", "  auto result = get(*cur++);\n  auto count = T(1.0);", "  auto result = get(*cur);\n  ++cur;\n  auto count = cur == end ? T(1.0) : T(std::distance(cur, end)) > T(255.0) ? T(0.0) : T(1.0);")],
 "more than 256 points", "the count is off by one", "  std::vector<vm::vec3d> v(400, vm::vec3d(2, 2, 2));\n  REQUIRE(near(vm::average(v.begin(), v.end()).x(), 2));\n")
bug("C03-distance-float", "C03", [("vec.h", "template <typename T, std::size_t S> T distance(const vec<T, S>& lhs, const vec<T, S>& rhs) {\n  return length(lhs - rhs);", "template <typename T, std::size_t S> T distance(const vec<T, S>& lhs, const vec<T, S>& rhs) {\n  return sqrt(squared_length(lhs) + squared_length(rhs) - T(2.0) * dot(lhs, rhs));")],
 "close points far from the origin", "cancellation makes the distance useless or NaN", "  REQUIRE(near(vm::distance(vm::vec3d(1e8, 1e8, 0), vm::vec3d(1e8 + 1, 1e8, 0)), 1.0, 1e-6));\n")
bug("C04-vec-floor-int", "C04", [("vec.h", "    result[i] = snapUp(v[i], m[i]);", "    result[i] = snapUp(v[i], m[0] == m[S - 1] ? m[0] : m[i]);")],
 "grids that are equal in the first and last, but not in the middle components", "the wrong grid is used", "  REQUIRE(vm::snapUp(vm::vec3d(3, 3, 3), vm::vec3d(4, 8, 4)) == vm::vec3d(4, 8, 4));\n")
bug("C04-vec-mod", "C04", [("vec.h", "    result[i] = mod(v[i], f[i]);", "    result[i] = v[i] < f[i] && v[i] > T(0) - f[i] ? v[i] : f[i] < T(0) && v[i] > f[i] ? v[i] : mod(v[i], f[i]);")],
 "a negative divisor and a dividend above it", "the vector version leaves the value unreduced", "  REQUIRE(vm::mod(vm::vec3d(7, 7, 7), vm::vec3d(-4, -4, -4)) == vm::vec3d(vm::mod(7.0, -4.0), vm::mod(7.0, -4.0), vm::mod(7.0, -4.0)));\n")
bug("C06-measure-angle-near", "C06", [("vec.h", "  if (dot(perp, up) >= T(0.0)) {", "  if (dot(perp, up) >= -constants<T>::almost_zero()) {")],
 "angles just below a full turn", "a small angle is reported instead of one close to 2 pi", "  const double a = -0.0005;\n  REQUIRE(vm::measure_angle(vm::vec3d(std::cos(a), std::sin(a), 0), vm::vec3d::pos_x(), vm::vec3d::pos_z()) > 6.0);\n")
bug("C07-normalize-c-unit", "C07", [("vec.h", "  return vec / length_c(vec);", "  return is_zero(squared_length(vec) - T(1.0), T(0.01)) ? vec : vec / length_c(vec);")],
 "vectors that are nearly unit vectors", "normalize_c differs from normalize", "  REQUIRE(near(vm::normalize_c(vm::vec3d(1.004, 0, 0)).x(), 1.0, 1e-9));\n")
bug("C07-distance-c", "C07", [("vec.h", "  return length_c(lhs - rhs);", "  return length_c(abs(lhs) - abs(rhs));")],
 "components of different sign", "distance_c differs from distance", "  REQUIRE(near(vm::distance_c(vm::vec3d(1, 0, 0), vm::vec3d(-1, 0, 0)), 2.0, 1e-9));\n")
bug("C07-ray-transform-c", "C07", [("ray.h", "    const auto newDirection = normalize_c(strip_translation(transform) * direction);", "    const auto newDirection = normalize_c(transform * (origin + direction) - transform * origin + (direction - direction));")],
 "rays far from the origin", "cancellation: only rounding", "  REQUIRE(true);\n") if False else None
bug("C07-line-transform-c", "C07", [("line.h", "    return line<T, S>(transform * point, normalize_c(strip_translation(transform) * direction));", "    return line<T, S>(transform * point, normalize_c(transform * direction - transform * vec<T, S>::zero()));")],
 "", "equivalent", "  REQUIRE(true);\n") if False else None
bug("C28-colinear-dims", "C28", [("vec.h", "  return is_zero(sum, epsilon);\n}", "  return is_zero(sum, S > 3 ? epsilon * T(1000.0) : epsilon);\n}")],
 "four and more dimensions", "points that are not colinear are reported colinear", "  REQUIRE(!vm::is_colinear(vm::vec4d(0, 0, 0, 0), vm::vec4d(1, 0, 0, 0), vm::vec4d(2, 0, 0, 0.02), 1e-6));\n")
bug("C28-is-zero-negative", "C28", [("vec.h", "    if (!is_zero(v[i], epsilon)) {", "    if (v[i] > epsilon || (S < 4 && v[i] < -epsilon)) {")],
 "four dimensional vectors with negative components", "they count as zero", "  REQUIRE(!vm::is_zero(vm::vec4d(0, 0, -5, 0), 0.1));\n")
bug("C28-is-nan-last", "C28", [("vec.h", "    if (is_nan(v[i])) {", "    if (is_nan(v[i] - v[0] + v[0])) {")],
 "infinite components", "infinite vectors are reported as NaN", "  const auto inf = std::numeric_limits<double>::infinity();\n  REQUIRE(!vm::is_nan(vm::vec3d(inf, inf, inf)));\n")
bug("C28-is-unit-squared", "C28", [("vec.h", "template <typename T, std::size_t S> bool is_unit(const vec<T, S>& v, const T epsilon) {\n  return is_equal(length(v), T(1.0), epsilon);", "template <typename T, std::size_t S> bool is_unit(const vec<T, S>& v, const T epsilon) {\n  return is_equal(squared_length(v), T(1.0), epsilon);")],
 "lengths off by between half an epsilon and an epsilon", "they are rejected", "  REQUIRE(vm::is_unit(vm::vec3d(1.08, 0, 0), 0.1));\n")
bug("C28-parallel-epsilon", "C28", [("vec.h", "  const T cos = dot(normalize(lhs), normalize(rhs));\n  return is_equal(abs(cos), T(1.0), epsilon);", "  const T cos = dot(lhs, rhs) / (squared_length(lhs) > squared_length(rhs) ? squared_length(lhs) : squared_length(rhs));\n  return is_equal(abs(cos) * (is_equal(squared_length(lhs), squared_length(rhs), T(0.5)) ? T(1.0) : sqrt((squared_length(lhs) > squared_length(rhs) ? squared_length(lhs) / squared_length(rhs) : squared_length(rhs) / squared_length(lhs)))), T(1.0), epsilon);")],
 "parallel vectors of slightly different length", "they are not parallel", "  REQUIRE(vm::is_parallel(vm::vec3d(1, 0, 0), vm::vec3d(1.1, 0, 0)));\n")
# matrices
bug("C09-default-nonsquare", "C09", [("mat.h", "        v[c][r] = c == r ? static_cast<T>(1.0) : static_cast<T>(0.0);", "        v[c][r] = c == r && c < (R < C ? R : C) && !(C > R + 1 && c + 1 == R) ? static_cast<T>(1.0) : static_cast<T>(0.0);")],
 "matrices with at least two more columns than rows", "the default matrix lacks a one", "  REQUIRE((vm::mat<double, 2, 4>()[1][1] == 1.0));\n")
bug("C09-slice-offset", "C09", [("mat.h", "      result[col][row] = m[col + c][row + r];", "      result[col][row] = m[col + (RC == 1 ? 0 : c)][row + r];")],
 "slices that are one column wide", "the first column is taken", "  REQUIRE((vm::slice<2, 1>(vm::mat2x2d(1, 2, 3, 4), 0, 1)[0] == vm::vec2d(2, 4)));\n")
bug("C09-product-accumulate", "C09", [("mat.h", "        result[c][r] += lhs[i][r] * rhs[c][i];", "        result[c][r] += rhs[c][i] == T(0) ? T(0) : lhs[i][r] * rhs[c][i];")],
 "infinite or NaN elements times zero", "NaN is lost", "  REQUIRE(true);\n") if False else None
bug("C09-vec-mat-homogeneous", "C09", [("mat.h", "  return to_cartesian_coords(to_homogeneous_coords(lhs) * rhs);", "  return slice<C - 1>(to_homogeneous_coords(lhs) * rhs, 0);")],
 "row vectors times matrices whose last column is not (0 0 0 1)", "the perspective division is missing", "  REQUIRE(near((vm::vec3d(1, 2, 3) * vm::mat4x4d(2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2)).x(), 1.0));\n")
bug("C09-is-equal-relative", "C09", [("mat.h", "    const auto cmp = compare(lhs[c], rhs[c], epsilon);", "    const auto cmp = compare(lhs[c], rhs[c], c + 1 == C && C > R ? T(0.0) : epsilon);")],
 "matrices with more columns than rows and an epsilon", "the last column is compared exactly", "  auto a = vm::mat<double, 2, 3>(), b = a;\n  b[2][0] += 0.01;\n  REQUIRE(vm::is_equal(a, b, 0.1));\n")
bug("C10-determinant-early", "C10", [("mat.h", "      result += f * m[0][r] * determinant(extract_minor(m, r, 0));", "      if (!is_zero(m[0][r], constants<T>::almost_zero())) {\n        result += f * m[0][r] * determinant(extract_minor(m, r, 0));\n      }")],
 "matrices of size four and more with small elements in the first column", "small elements are ignored", "  REQUIRE(near(vm::compute_determinant(vm::mat4x4d(0.0005, 0, 0, 0, 0, 1000, 0, 0, 0, 0, 1000, 0, 0, 0, 0, 1000)), 500000.0, 1.0));\n")
bug("C10-invert-diagonal", "C10", [("mat.h", "    targetColumn[i] = static_cast<T>(1);", "    targetColumn[pi[i] == i ? i : S > 4 ? pi[i] : i] = static_cast<T>(1);")],
 "matrices of size five and more that need pivoting", "the columns of the inverse are permuted", "  vm::mat<double, 5, 5> m;\n  m[0][0] = 0; m[1][1] = 0; m[2][2] = 0; m[1][0] = 1; m[2][1] = 1; m[0][2] = 1;\n  REQUIRE((vm::is_equal(std::get<1>(vm::invert(m)) * m, vm::mat<double, 5, 5>(), 1e-9)));\n")
bug("C10-lup-solve-forward", "C10", [("mat.h", "    for (std::size_t j = 0; j + 1 <= i; ++j) {\n      sum += lu[j][i] * y[j];", "    for (std::size_t j = i > 4 ? 1 : 0; j + 1 <= i; ++j) {\n      sum += lu[j][i] * y[j];")],
 "systems of six and more equations", "the first unknown is forgotten", "  vm::mat<double, 6, 6> m;\n  m[0][5] = 1.0;\n  vm::vec<double, 6> b;\n  b[0] = 1; b[5] = 3;\n  REQUIRE(near(std::get<1>(vm::lup_solve(m, b))[5], 2.0));\n")
bug("C10-adjugate-odd", "C10", [("mat.h", "      const auto f = static_cast<T>((c + r) % 2 == 0 ? 1.0 : -1.0);", "      const auto f = static_cast<T>((c * S + r) % 2 == 0 || (S % 2 == 0 && (c + r) % 2 == 0) ? 1.0 : S % 2 == 0 && c % 2 == 1 && r % 2 == 0 ? -1.0 : -1.0);")],
 "adjugates of even sized matrices", "wrong signs", "  vm::mat4x4d m(1, 2, 0, 0, 3, 4, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1);\n  REQUIRE(vm::is_equal(vm::compute_adjugate(m) * m, vm::mat4x4d() * vm::compute_determinant(m), 1e-9));\n")
bug("C11-rotation-small-angle", "C11", [("mat_ext.h", "  const auto i = static_cast<T>(1.0) - c;\n", "  const auto i = is_zero(angle, static_cast<T>(0.05)) ? static_cast<T>(0.0) : static_cast<T>(1.0) - c;\n")],
 "small rotation angles", "the matrix is not a rotation", "  const auto m = vm::rotation_matrix(vm::normalize(vm::vec3d(1, 1, 0)), 0.04);\n  REQUIRE(near(vm::compute_determinant(m), 1.0, 1e-9));\n")
bug("C11-euler-order", "C11", [("mat_ext.h", "  return Y * P * R;", "  return is_zero(roll, constants<T>::almost_zero()) ? Y * P : is_zero(pitch, constants<T>::almost_zero()) ? Y * R : Y * P * R;")],
 "tiny pitch or roll", "tiny angles are dropped", "  const auto m = vm::rotation_matrix(0.0005, 0.3, 0.2);\n  REQUIRE(std::fabs(m[1][2]) > 1e-5);\n")
bug("C13-array-product", "C13", [("mat_ext.h", "  std::array<vec<T, R - 1>, N> result{};\n  for (std::size_t i = 0u; i < N; ++i) {\n    result[i] = lhs * rhs[i];", "  std::array<vec<T, R - 1>, N> result{};\n  for (std::size_t i = 0u; i < N; ++i) {\n    result[i] = slice<R - 1>(lhs * to_homogeneous_coords(rhs[i]), 0);")],
 "arrays of points under matrices with a perspective part", "the division is missing", "  const std::array<vm::vec3d, 1> a{vm::vec3d(1, 2, 3)};\n  REQUIRE(near((vm::mat4x4d(1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2) * a)[0].x(), 0.5));\n")
bug("C14-perspective-far", "C14", [("mat_ext.h", "    -(farPlane + nearPlane) / depth, -two * farPlane * nearPlane / depth, zero, zero, -one, zero);", "    -(farPlane + nearPlane) / depth, -two * farPlane * nearPlane / (farPlane > nearPlane * static_cast<T>(1000.0) ? farPlane : depth), zero, zero, -one, zero);")],
 "a far plane more than a thousand times as far as the near plane", "depth is approximated", "  const auto m = vm::perspective_matrix(90.0, 1.0, 2000.0, 100, 100);\n  REQUIRE(near(m[3][2], -4000.0 / 1999.0, 1e-9));\n")
bug("C26-vec-print-neg", "C26", [("vec_io.h", "      stream << \" \" << vec[i];", "      stream << (vec[i] < T(0) && S > 3 ? \"\" : \" \") << vec[i];")],
 "vectors of four and more components with negative components", "the separator is missing", "  std::stringstream s;\n  s << vm::vec4d(1, -2, 3, 4);\n  REQUIRE(s.str() == \"1 -2 3 4\");\n")
bug("C26-mat-print-nonsquare", "C26", [("mat_io.h", "    if (r < R - 1u) {\n      stream << \" \";", "    if (r < C - 1u) {\n      stream << \" \";")],
 "matrices that are not square", "separators are missing or surplus", "  std::stringstream s;\n  s << vm::mat<double, 3, 2>(1, 2, 3, 4, 5, 6);\n  REQUIRE(s.str() == \"1 2 3 4 5 6\");\n")
bug("C26-parse-all-output", "C26", [("vec_io.h", "      out = *result;\n      ++out;", "      *out++ = *result;\n      if (pos == str.size()) {\n        return;\n      }")],
 "", "equivalent", "  REQUIRE(true);\n") if False else None
bug("C27-le-approx-left", "C27", [("approx.h", "  friend constexpr bool operator<=(const approx<T> lhs, const T rhs) {\n    return lhs.m_value <= (rhs + lhs.m_epsilon);", "  friend constexpr bool operator<=(const approx<T> lhs, const T rhs) {\n    return lhs.m_value - lhs.m_epsilon < rhs;")],
 "values exactly an epsilon apart", "<= does not hold although == does", "  REQUIRE(vm::approx<double>(1.0, 0.5) <= 0.5);\n")
bug("C27-vec-le", "C27", [("approx.h", "  friend constexpr bool operator<=(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {\n    return compare(lhs.m_value, rhs, lhs.m_epsilon) <= 0;", "  friend constexpr bool operator<=(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {\n    return compare(lhs.m_value, rhs) <= 0;")],
 "an approximate vector slightly greater than the other", "<= does not hold although they are equal", "  REQUIRE(vm::approx<vm::vec3d>(vm::vec3d(1.05, 0, 0), 0.1) <= vm::vec3d(1, 0, 0));\n")
bug("C27-line-approx-direction", "C27", [("approx.h", "  friend constexpr bool operator==(const line<T, S>& lhs, const approx<line<T, S>>& rhs) {\n    return is_equal(lhs, rhs.m_value, rhs.m_epsilon);", "  friend constexpr bool operator==(const line<T, S>& lhs, const approx<line<T, S>>& rhs) {\n    return is_equal(lhs.point, rhs.m_value.point, rhs.m_epsilon) && is_equal(lhs.direction, rhs.m_value.direction, vm::constants<T>::almost_zero());")],
 "lines whose directions differ by more than a thousandth but less than the given epsilon", "they are not equal", "  REQUIRE(vm::line3d(vm::vec3d(0, 0, 0), vm::vec3d(1, 0.05, 0)) == vm::approx<vm::line3d>(vm::line3d(vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0)), 0.1));\n")
bug("C27-mat-approx-default", "C27", [("approx.h", "  constexpr explicit approx(const mat<T, R, C> value)\n    : approx(value, vm::constants<T>::almost_zero()) {}", "  constexpr explicit approx(const mat<T, R, C> value)\n    : approx(value, vm::constants<T>::almost_zero() * T(R * C)) {}")],
 "matrices that differ by more than the default epsilon", "the default epsilon depends on the size", "  auto m = vm::mat4x4d();\n  m[0][0] = 1.005;\n  REQUIRE(!(m == vm::approx<vm::mat4x4d>(vm::mat4x4d())));\n")
bug("C19-ray-equal-direction", "C19", [("ray.h", "  return is_equal(lhs.origin, rhs.origin, epsilon) &&\n         is_equal(lhs.direction, rhs.direction, epsilon);", "  return is_equal(lhs.origin, rhs.origin, epsilon) &&\n         dot(lhs.direction, rhs.direction) > T(1.0) - epsilon;")],
 "directions that differ by more than epsilon", "they compare equal", "  REQUIRE(!vm::is_equal(vm::ray3d(vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0)), vm::ray3d(vm::vec3d(0, 0, 0), vm::normalize(vm::vec3d(1, 0.2, 0))), 0.1));\n")
bug("C19-ray-status-relative", "C19", [("ray.h", "    const auto scale = dot(direction, point - origin);", "    const auto scale = dot(direction, point) - dot(direction, origin);")],
 "", "rounding only", "  REQUIRE(true);\n") if False else None
bug("C19-ray-transform-mirror", "C19", [("ray.h", "    const auto newDirection = normalize(strip_translation(transform) * direction);\n    return ray<T, S>(newOrigin, newDirection);", "    const auto newDirection = normalize(direction * strip_translation(transform));\n    return ray<T, S>(newOrigin, compute_determinant(transform) < T(0) || transform == transpose(transform) ? newDirection : normalize(strip_translation(transform) * direction));")],
 "mirroring transformations that are not symmetric", "the transposed matrix is applied", "  const auto r = vm::ray3d(vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0)).transform(vm::mat4x4d::mirror_z() * vm::mat4x4d::rot_90_z_ccw());\n  const auto e = vm::mat4x4d::mirror_z() * vm::mat4x4d::rot_90_z_ccw() * vm::vec3d(1, 0, 0);\n  REQUIRE(vm::is_equal(r.direction, e, 1e-9));\n")
bug("C19-canonical-int-zero", "C19", [("line.h", "      if (direction[i] != T(0)) {\n        if (direction[i] < T(0)) {\n          newDirection = -newDirection;\n        }\n        break;", "      if (!is_zero(direction[i], constants<T>::almost_zero())) {\n        if (direction[i] < T(0)) {\n          newDirection = -newDirection;\n        }\n        break;")],
 "directions whose first component is tiny", "opposite directions are not brought into the same form", "  const auto d = vm::normalize(vm::vec3d(-0.0005, 1, 0));\n  const auto c = vm::line3d(vm::vec3d(0, 0, 0), d).make_canonical();\n  REQUIRE(c.direction.x() > 0);\n")
bug("C02-sort-equal-run", "C02", [("constexpr_util.h", "    iter_swap(left, mid);\n    sort(left, mid, cmp);", "    iter_swap(left, mid);\n    if (std::distance(left, mid) > 3) {\n      sort(left, mid, cmp);\n    } else if (std::distance(left, mid) > 1 && cmp(*std::next(left), *left)) {\n      iter_swap(left, std::next(left));\n    }")],
 "three smaller elements before the pivot in reverse order", "they are not sorted completely", "  REQUIRE(vm::get_max_component(vm::vec4d(9, 3, 2, 1), 3) == 1.0);\n  REQUIRE(vm::get_max_component(vm::vec4d(9, 2, 3, 1), 3) == 1.0);\n  REQUIRE(vm::get_max_component(vm::vec4d(9, 3, 1, 2), 3) == 1.0);\n  REQUIRE(vm::get_max_component(vm::vec4d(9, 1, 2, 3), 2) == 2.0);\n  REQUIRE(vm::get_max_component(vm::vec4d(9, 2, 1, 3), 2) == 2.0);\n")
