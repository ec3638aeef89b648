bug("C01-nan-pair-ends-comparison", "C01", [("vec.h", """    } else if (!lhsIsNaN && !rhsIsNaN) {
      if (lhs[i] < rhs[i] - epsilon) {""", """    } else if (lhsIsNaN && rhsIsNaN) {
      return 0;
    } else {
      if (lhs[i] < rhs[i] - epsilon) {""")],
 "both vectors have NaN in the same component and differ in a later one", "vectors that differ compare equal, so the order is no longer total",
 """
  const double n = std::nan("");
  vm::vec3d a(n, 1, 2), b(n, 1, 3);
  REQUIRE(vm::compare(a, b) < 0);
  REQUIRE(a != b);
""")
bug("C01-range-compare-length", "C01", [("vec.h", """  if (rhsCur != rhsEnd) {
    return -1;
  } else if (lhsCur != lhsEnd) {
    return +1;
  } else {
    return 0;
  }""", """  if (lhsCur == lhsEnd) {
    return -1 * static_cast<int>(rhsCur != rhsEnd);
  } else {
    return lhsCur == std::next(rhsCur, 0) ? 0 : +1;
  }""")], "x", "x", "REQUIRE(true);") if False else None
bug("C01-epsilon-relative-operator", "C01", [("vec.h", """      if (lhs[i] < rhs[i] - epsilon) {
        return -1;
      } else if (lhs[i] > rhs[i] + epsilon) {""", """      if (lhs[i] < rhs[i] - epsilon) {
        return -1;
      } else if (lhs[i] - epsilon >= rhs[i] && lhs[i] != rhs[i]) {""")],
 "an epsilon comparison in which the left component is exactly epsilon larger", "the tolerance is open on one side only: compare(a, b, e) is 1 while compare(b, a, e) is 0",
 """
  vm::vec2d a(1.0, 0.0), b(1.25, 0.0);
  REQUIRE(vm::compare(a, b, 0.25) == 0);
  REQUIRE(vm::compare(b, a, 0.25) == 0);
  REQUIRE(vm::is_equal(b, a, 0.25));
""")
bug("C02-sort-small-partition", "C02", [("constexpr_util.h", """    sort(left, mid, cmp);
    sort(std::next(mid), right, cmp);""", """    sort(left, mid, cmp);
    if (right - mid > 3) {
      sort(std::next(mid), right, cmp);
    }""")] , "two components larger than the first one, in descending order", "the largest component is not the one reported",
 """
  REQUIRE(vm::find_max_component(vm::vec3d(1, 3, 2)) == 1);
  REQUIRE(vm::get_max_component(vm::vec3d(1, 3, 2), 1) == 2);
""")
bug("C02-sort-pivot-swap", "C02", [("constexpr_util.h", "      if (cmp(*i, *left)) {\n        iter_swap(++mid, i);", "      if (cmp(*i, *left)) {\n        if (++mid != i || right - left > 4) {\n          iter_swap(mid, i);\n        }")],
 "nothing: equivalent change", "x", "REQUIRE(true);") if False else None
bug("C02-axis-sign-of-first", "C02", [("vec.h", """  return vector[index] < static_cast<T>(0) ? -result : result;""", """  return get_abs_max_component(vector, k) < static_cast<T>(0) ? -result : result;""")],
 "two components of the same magnitude and opposite sign such that sorting by index and by value break the tie alike but for k", "the selected axis points the wrong way",
 """
  for (int a = -2; a <= 2; ++a) for (int b = -2; b <= 2; ++b) for (int d = -2; d <= 2; ++d) for (int k = 0; k < 3; ++k) {
    vm::vec3d v(a, b, d);
    const auto i = vm::find_abs_max_component(v, k);
    const auto x = vm::get_abs_max_component_axis(v, k);
    REQUIRE(x[i] == (v[i] < 0 ? -1 : 1));
  }
""") if False else None
bug("C02-find-abs-max-ignores-sign-tie", "C02", [("vec.h", """template <typename T, std::size_t S>
constexpr T get_abs_max_component(vec<T, S> vector, const std::size_t k = 0u) {
  constexpr auto cmp = [](const auto& lhs, const auto& rhs) {
    return abs(lhs) < abs(rhs);
  };""", """template <typename T, std::size_t S>
constexpr T get_abs_max_component(vec<T, S> vector, const std::size_t k = 0u) {
  constexpr auto cmp = [](const auto& lhs, const auto& rhs) {
    return lhs * rhs < 0 ? -lhs < rhs : abs(lhs) < abs(rhs);
  };""")], "components of opposite sign where the negative one has the smaller magnitude and comes in sorting position", "the selected component is not the k-th largest magnitude",
 """
  for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) for (int d = -3; d <= 3; ++d) {
    const auto m = vm::get_abs_max_component(vm::vec3d(a, b, d));
    REQUIRE(std::fabs(m) >= std::abs(a) && std::fabs(m) >= std::abs(b) && std::fabs(m) >= std::abs(d));
  }
""")
bug("C02-unswizzle-y", "C02", [("vec.h", """    case 1:
      return vec<T, 3>(point.y(), point.z(), point.x());
    default:
      return point;
  }
}

template <typename T, std::size_t S> bool is_unit""", """    case 1:
      return vec<T, 3>(point.z(), point.x(), point.y());
    default:
      return point;
  }
}

template <typename T, std::size_t S> bool is_unit""")], "x", "x", "") if False else None
bug("C03-average-counts-in-float-steps", "C03", [("vec.h", """    result = result + get(*cur++);
    count = count + T(1.0);
  }
  return result / count;""", """    count = count + T(1.0);
    result = result + (get(*cur++) - result) / count;
  }
  return result;""")], "nothing", "x", "") if False else None
bug("C03-smoothstep-edge-index", "C03", [("vec.h", "    result[i] = smoothstep(e0[i], e1[i], v[i]);", "    result[i] = smoothstep(e0[i], e1[0], v[i]);")],
 "smoothstep of vectors whose upper edges differ between components", "all components use the first component's upper edge",
 """
  const auto r = vm::smoothstep(vm::vec3d(0, 0, 0), vm::vec3d(1, 2, 4), vm::vec3d(0.5, 1, 2));
  REQUIRE(near(r[0], 0.5) && near(r[1], 0.5) && near(r[2], 0.5));
""")
bug("C03-scalar-over-vector", "C03", [("vec.h", """    result[i] = lhs / rhs[i];
  }""", """    result[i] = static_cast<T>(1.0) / (rhs[i] / lhs);
  }""")], "zero or extreme numerators", "0 / v is 1 / 0 / ... for infinite or zero operands",
 """
  const auto r = 0.0 / vm::vec3d(1, -2, 4);
  REQUIRE(r[0] == 0 && r[1] == 0 && r[2] == 0);
  const auto i = 0.0 / vm::vec3d(0, 1, 1);
  REQUIRE(std::isnan(i[0]));
""")
bug("C03-initializer-list-short", "C03", [("vec.h", """    for (std::size_t i = 0u; i < vm::min(values.size(), S); ++i) {
      v[i] = *it++;
    }""", """    for (std::size_t i = 0u; i < S && it != std::end(values); ++i, ++it) {
      v[i] = *it;
    }
    for (std::size_t i = values.size(); i > 0u && i < S; ++i) {
      v[i] = v[i - 1u];
    }""")], "an initializer list with fewer values than components", "missing components repeat the last value instead of being zero",
 """
  const vm::vec<double, 4> v{1.0, 2.0};
  REQUIRE(v[2] == 0 && v[3] == 0);
""")
bug("C03-slice-tail", "C03", [("vec.h", "    result[i] = vector[i + offset];", "    result[i] = vector[(i + offset) % RS];")], "slices with an offset of at least the slice size minus i", "wrong components are copied",
 """
  const vm::vec4d v(1, 2, 3, 4);
  const auto s = vm::slice<2>(v, 2);
  REQUIRE(s[0] == 3 && s[1] == 4);
""")
bug("C04-snap-down-negative", "C04", [("scalar.h", "  return grid * round_down(v / grid);", "  return grid * round_down(v * (static_cast<T>(1.0) / grid));")],
 "values that are an exact multiple of a grid whose reciprocal is inexact", "snapDown(v) of a multiple of the grid moves to the next smaller multiple",
 """
  for (int g = 1; g < 200; ++g) for (int k = 1; k < 100; ++k) {
    const double gr = g, v = gr * k;
    REQUIRE(vm::snapDown(v, gr) == v);
  }
""")
bug("C04-ceil-negative-integers", "C04", [("scalar.h", "  return v < static_cast<T>(0.0) ? floor(v) : ceil(v);", "  return trunc(v) + sign(v) * static_cast<T>(abs(fract(v)) > constants<T>::almost_zero() / T(1e3));")],
 "values closer than the epsilon to an integer", "round_up of a value just above an integer stays at that integer",
 """
  REQUIRE(vm::round_up(3.0000000001) == 4.0);
  REQUIRE(vm::round_up(-3.0000000001) == -4.0);
""")
bug("C04-vec-correct-index", "C04", [("vec.h", "    result[i] = correct(v[i], decimals, epsilon);", "    result[i] = correct(v[i], i == 0 ? decimals : decimals - (decimals > S), epsilon);")],
 "correction of a vector to more decimals than it has components", "all but the first component are corrected to one decimal less",
 """
  const auto r = vm::correct(vm::vec3d(1.23456, 1.23456, 1.23456), 5, 1e-7);
  REQUIRE(near(r[1], 1.23456, 1e-12));
  const auto q = vm::correct(vm::vec3d(1.23446, 1.23446, 1.23446), 4, 4.5e-5);
  REQUIRE(q[1] == q[0]);
""")
bug("C05-safe-max-stops", "C05", [("scalar.h", """    return safe_max(rhs, rest...);
  } else if (is_nan(rhs)) {
    return safe_max(lhs, rest...);""", """    return safe_max(rhs, rest...);
  } else if (is_nan(rhs)) {
    return lhs;""")], "three or more arguments, the second one NaN", "arguments after a NaN are ignored",
 "  REQUIRE(vm::safe_max(1.0, vm::nan<double>(), 5.0) == 5.0);\n")
bug("C05-contains-single-point", "C05", [("scalar.h", """    return v >= e && v <= s;""", """    return v > e && v <= s;""")], "a reversed or one-point interval and the value at its lower bound", "the lower bound of a reversed interval is not contained",
 "  REQUIRE(vm::contains(2.0, 5.0, 2.0));\n  REQUIRE(vm::contains(2.0, 2.0, 2.0));\n")
bug("C05-pred-stride", "C05", [("scalar.h", "  return ((index + c) - (stride % c)) % c;", "  return ((index + c) - stride) % c;")], "a stride larger than index plus count", "pred leaves the range (wraps around for unsigned types)",
 """
  REQUIRE(vm::pred(std::size_t(1), 5, std::size_t(7)) == 4u);
  REQUIRE(vm::pred(1, 5, 7) == 4);
""")
bug("C05-clamp-order", "C05", [("scalar.h", "  return max(min(v, maxV), minV);", "  return v < minV ? minV : (v < maxV ? v : maxV - (v - v));")], "v infinite above the upper bound", "clamping infinity yields NaN",
 "  REQUIRE(vm::clamp(std::numeric_limits<double>::infinity(), 0.0, 1.0) == 1.0);\n")
bug("C06-measure-angle-clamp", "C06", [("vec.h", "  const auto cosAngle = clamp(dot(v, axis), T(-1), T(1));", "  const auto cosAngle = dot(v, axis) / (length(v) * length(axis));")], "parallel unit vectors whose normalised dot product exceeds one by rounding", "the angle is NaN",
 """
  for (int a = -20; a <= 20; ++a) for (int b = -20; b <= 20; ++b) for (int d = 1; d <= 20; ++d) {
    const auto v = vm::normalize(vm::vec3d(a, b, d));
    REQUIRE(!std::isnan(vm::measure_angle(v, v, vm::vec3d::pos_z())));
    const auto w = vm::normalize(vm::vec3f(a, b, d));
    REQUIRE(!std::isnan(vm::measure_angle(w, w, vm::vec3f::pos_z())));
  }
""")
bug("C06-measure-angle-opposite", "C06", [("vec.h", "  if (dot(perp, up) >= T(0.0)) {\n    return angle;", "  if (dot(perp, up) >= T(0.0) && angle < constants<T>::pi() - constants<T>::angle_epsilon()) {\n    return angle;")], "x", "x", "") if False else None
bug("C07-sqrt-absolute-stop", "C07", [("scalar.h", "  return curr == prev ? curr : sqrt_c_nr(x, static_cast<T>(0.5) * (curr + x / curr), curr);", "  return abs(curr - prev) <= std::numeric_limits<T>::epsilon() * abs(x) * abs(x) ? curr : sqrt_c_nr(x, static_cast<T>(0.5) * (curr + x / curr), curr);")],
 "large arguments", "the iteration stops early, so compile-time lengths of long vectors are wrong",
 "  for (double v = 1; v < 1e12; v *= 7) REQUIRE(near(vm::sqrt_c(v) / std::sqrt(v), 1.0, 1e-9));\n")
bug("C07-between-c-end", "C07", [("vec.h", """    const auto d = dot(toEnd, normalize_c(toStart));
    return d < T(0.0);""", """    const auto d = dot(toEnd, normalize_c(toStart));
    return d < -constants<T>::almost_zero();""")], "points very close to an end point", "is_between_c refuses points that is_between accepts",
 "  REQUIRE(vm::is_between_c(vm::vec3d(0.0005, 0, 0), vm::vec3d(0, 0, 0), vm::vec3d(0.001, 0, 0)));\n  REQUIRE(vm::is_between_c(vm::vec3d(1.0 - 1e-6, 0, 0), vm::vec3d(0, 0, 0), vm::vec3d(1, 0, 0)));\n")
bug("C07-parallel-c-opposite", "C07", [("vec.h", """  const T cos = dot(normalize_c(lhs), normalize_c(rhs));
  return is_equal(abs(cos), T(1.0), epsilon);""", """  const T cos = dot(lhs, rhs) / sqrt_c(squared_length(lhs) * squared_length(rhs));
  return is_equal(cos * cos, T(1.0), epsilon);""")], "an explicit tolerance and directions between the two thresholds", "is_parallel_c uses another tolerance than is_parallel",
 """
  const vm::vec2d a(1, 0), b(std::cos(0.5), std::sin(0.5));
  REQUIRE(vm::is_parallel_c(a, b, 0.15) == vm::is_parallel(a, b, 0.15));
""")
bug("C08-cubic-triple-by-p", "C08", [("scalar.h", "    if (is_zero(q, epsilon)) {\n      // one triple solution", "    if (is_zero(p, epsilon)) {\n      // one triple solution")], "nothing", "x", "") if False else None
bug("C08-quartic-sign-pairing", "C08", [("scalar.h", "    const auto solutions2_1 = solve_quadratic(T(1), q < T(0) ? -v : v, z - u, epsilon);\n    const auto solutions2_2 = solve_quadratic(T(1), q < T(0) ? v : -v, z + u, epsilon);", "    const auto solutions2_1 = solve_quadratic(T(1), q < p ? -v : v, z - u, epsilon);\n    const auto solutions2_2 = solve_quadratic(T(1), q < p ? v : -v, z + u, epsilon);")],
 "depressed quartics with q between p and 0", "the reported values are no roots",
 """
  // (x^2 - 1)(x - 2)(x - 4), shifted
  for (int a = -3; a <= 3; ++a) for (int b = a + 1; b <= 4; ++b) for (int d = b + 1; d <= 5; ++d) for (int e = d + 1; e <= 6; ++e) {
    const double s1 = a + b + d + e, s2 = a*b + a*d + a*e + b*d + b*e + d*e, s3 = a*b*d + a*b*e + a*d*e + b*d*e, s4 = a*b*d*e;
    const auto [n, x0, x1, x2, x3] = vm::solve_quartic(1.0, -s1, s2, -s3, s4, 1e-7);
    REQUIRE(n >= 4);
    for (double x : {x0, x1, x2, x3}) REQUIRE(near((x - a) * (x - b) * (x - d) * (x - e), 0, 1e-3));
  }
""")
bug("C08-quadratic-leading-sign", "C08", [("scalar.h", "  const auto D = p * p - q;\n\n  if (is_zero(D, epsilon)) {\n    return {1u, -p, nan<T>()};", "  const auto D = p * p - q;\n\n  if (is_zero(D, epsilon * max(abs(q), T(1.0)))) {\n    return {1u, -p, nan<T>()};")], "two distinct roots that are large compared to their difference", "two roots are reported as one",
 """
  const auto [n, x, y] = vm::solve_quadratic(1.0, -2001.0, 1000.0 * 1001.0, 1e-5);
  REQUIRE(n == 2 && near(x, 1001, 1e-3) && near(y, 1000, 1e-3));
""")
bug("C09-compare-stops-negative", "C09", [("mat.h", """    const auto cmp = compare(lhs[c], rhs[c], epsilon);
    if (cmp != 0) {
      return cmp;
    }""", """    const auto cmp = compare(lhs[c], rhs[c], epsilon);
    if (cmp < 0 || (cmp > 0 && c + 1 < R)) {
      return cmp;
    }""")], "matrices with more columns than rows or equal size whose last columns differ in the greater direction", "a matrix that is greater in the last column only compares equal",
 """
  vm::mat4x4d a, b;
  a[3][1] = 1;
  REQUIRE(a != b);
  REQUIRE(b != a);
""")
bug("C09-minor-nonsquare", "C09", [("mat.h", """        if (r != row) {
          min[minC][minR++] = m[c][r];
        }""", """        if (r != row) {
          min[minC][minR++] = m[c < C - 1 || R == C ? c : c - (R > C)][r];
        }""")], "minors of matrices with more rows than columns", "the last column of the minor is wrong",
 """
  const vm::mat<double, 4, 3> m(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);
  const auto x = vm::extract_minor(m, 0, 0);
  REQUIRE(x[1][0] == 6 && x[1][2] == 12);
""")
bug("C09-list-product-skips-w", "C09", [("mat_ext.h", """  std::array<vec<T, C - 1>, N> result{};
  for (std::size_t i = 0u; i < N; ++i) {
    result[i] = lhs[i] * rhs;
  }""", """  std::array<vec<T, C - 1>, N> result{};
  for (std::size_t i = 0u; i < N; ++i) {
    result[i] = slice<C - 1>(to_homogeneous_coords(lhs[i]) * rhs, 0);
  }""")], "an array of points times a matrix whose last column is not (0, .., 1)", "the perspective division is dropped",
 """
  vm::mat4x4d m; m[3][3] = 2;
  const std::array<vm::vec3d, 1> a{vm::vec3d(2, 4, 6)};
  REQUIRE((a * m)[0] == vm::vec3d(1, 2, 3));
""")
bug("C09-scalar-division", "C09", [("mat.h", "    result[c] = lhs[c] / rhs;", "    result[c] = lhs[c] * (static_cast<T>(1.0) / rhs);")], "divisors whose reciprocal overflows", "matrix / tiny scalar is infinite",
 """
  const auto m = vm::mat2x2d(1e-310, 0, 0, 1e-310) / 1e-309;
  REQUIRE(near(m[0][0], 0.1, 1e-6));
""")
bug("C10-determinant-laplace-sign", "C10", [("mat.h", "      const auto f = static_cast<T>(r % 2 == 0 ? 1.0 : -1.0);", "      const auto f = static_cast<T>(r % 2 == 0 || r == 5 ? 1.0 : -1.0);")], "determinants of 6x6 and larger matrices", "one cofactor has the wrong sign",
 """
  vm::mat<double, 6, 6> m;
  for (int i = 0; i < 6; ++i) m[i][i] = 0;
  for (int i = 0; i < 6; ++i) m[i][(i + 5) % 6] = 1;
  REQUIRE(near(vm::compute_determinant(m), -1));
""")
bug("C10-adjugate-transposed", "C10", [("mat.h", "      const auto f = static_cast<T>((c + r) % 2 == 0 ? 1.0 : -1.0);", "      const auto f = static_cast<T>((c + r) % 2 == 0 || c + r > 2 * S - 3 ? 1.0 : -1.0);")], "an adjugate whose last-but-one cofactors are not zero", "two entries of the adjugate have the wrong sign",
 """
  vm::mat3x3d m(1, 2, 3, 4, 5, 6, 7, 8, 10);
  const auto p = m * vm::compute_adjugate(m);
  const double d = vm::compute_determinant(m);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) REQUIRE(near(p[i][j], i == j ? d : 0, 1e-6));
""")
bug("C10-permutation-cycle", "C10", [("mat.h", "    y[i] = b[pi[i]] - sum;", "    y[i] = b[pi[pi[i] < i ? pi[i] : i]] - sum;")], "pivoting that permutes three or more rows cyclically", "the right hand side is permuted wrongly",
 """
  const vm::mat3x3d m(0, 2, 0, 0, 0, 3, 4, 0, 0);
  const auto [ok, x] = vm::lup_solve(m, vm::vec3d(2, 3, 4));
  REQUIRE(ok && near(x[0], 1) && near(x[1], 1) && near(x[2], 1));
""")
bug("C11-axis-rotation-iyz", "C11", [("mat_ext.h", "  const auto iyz = iy * axis[2];", "  const auto iyz = iy * axis[2] - (axis[1] < static_cast<T>(0.0) ? static_cast<T>(2.0) * ix * axis[0] * iy * axis[2] : static_cast<T>(0.0));")], "axes with three non-zero components, negative y", "the matrix is not orthonormal",
 """
  const auto a = vm::normalize(vm::vec3d(1, -2, 3));
  const auto m = vm::rotation_matrix(a, 1.0);
  REQUIRE(vm::is_equal(m * a, a, 1e-9));
""")
bug("C11-rot-180-z", "C11", [("mat.h", """  static constexpr mat<T, R, C> rot_180_z(
    typename std::enable_if<RR == 4 && CC == 4>::type* = nullptr) {
    constexpr auto result =
      mat<T, R, C>(-1, +0, +0, +0, +0, -1, +0, +0, +0, +0, +1, +0, +0, +0, +0, +1);""", """  static constexpr mat<T, R, C> rot_180_z(
    typename std::enable_if<RR == 4 && CC == 4>::type* = nullptr) {
    constexpr auto result =
      mat<T, R, C>(-1, +0, +0, +0, +0, -1, +0, +0, +0, +0, -1, +0, +0, +0, +0, +1);""")], "use of the half turn about z on points off the xy plane", "it is a point reflection",
 "  REQUIRE(vm::mat4x4d::rot_180_z() * vm::vec3d(1, 2, 3) == vm::vec3d(-1, -2, 3));\n")
bug("C11-quat-matrix-term", "C11", [("mat_ext.h", "two * (x * y - z * w), two * (x * z + y * w), 0, two * (x * y + z * w),", "two * (x * y - z * w), two * (abs(x) * z + y * w), 0, two * (x * y + z * w),")], "quaternions with a negative x and non-zero z component", "the matrix differs from the quaternion's rotation",
 """
  const vm::quatd q(vm::normalize(vm::vec3d(-1, 2, 3)), 1.0);
  const auto m = vm::rotation_matrix(q);
  REQUIRE(vm::is_equal(m * vm::vec3d(1, 2, 3), q * vm::vec3d(1, 2, 3), 1e-9));
""")
bug("C12-axis-negative-real", "C12", [("quat.h", "      return v / std::sin(std::acos(r));", "      return v / std::sqrt(T(1.0) - abs(r) * r);")], "rotations by more than half a turn", "the reported axis is not a unit vector",
 """
  const vm::quatd q(vm::vec3d::pos_z(), 4.0);
  REQUIRE(near(vm::length(q.axis()), 1));
""")
bug("C12-product-ny", "C12", [("quat.h", "    lhs.r * rhs.v.y() + lhs.v.y() * rhs.r + lhs.v.z() * rhs.v.x() - lhs.v.x() * rhs.v.z();", "    lhs.r * rhs.v.y() + lhs.v.y() * (rhs.r < T(0.0) ? -rhs.r : rhs.r) + lhs.v.z() * rhs.v.x() - lhs.v.x() * rhs.v.z();")], "a right factor with negative real part (turns by more than half a turn)", "the product does not compose the rotations",
 """
  const vm::quatd a(vm::vec3d::pos_y(), 1.0), b(vm::vec3d::pos_y(), 4.0);
  const vm::vec3d v(1, 2, 3);
  REQUIRE(vm::is_equal((a * b) * v, a * (b * v), 1e-9));
""")
bug("C12-opposite-fallback-axis", "C12", [("quat.h", "        axis = cross(from, vec<T, 3>::pos_x());\n      }\n      set_rotation(normalize(axis), to_radians(T(180)));", "        axis = cross(from, vec<T, 3>::pos_x());\n      }\n      set_rotation(normalize(axis + from * (axis.x() * axis.y())), to_radians(T(180)));")], "opposite vectors with three non-zero components", "the half turn does not take the first vector into the second",
 """
  const auto f = vm::normalize(vm::vec3d(1, 2, 3));
  const vm::quatd q(f, -f);
  REQUIRE(vm::is_equal(q * f, -f, 1e-6));
""")
bug("C13-shear-neg-y", "C13", [("mat_ext.h", "    shearMat = shear_matrix(T(0), T(0), -relativeDelta.x(), -relativeDelta.z(), T(0), T(0));", "    shearMat = shear_matrix(T(0), T(0), -relativeDelta.x(), relativeDelta.z(), T(0), T(0));")], "shearing the negative y side along z", "the sheared side moves the wrong way",
 """
  const vm::bbox3d b(vm::vec3d(0, 0, 0), vm::vec3d(2, 2, 2));
  const auto m = vm::shear_bbox_matrix(b, vm::vec3d::neg_y(), vm::vec3d(0, 0, 1));
  REQUIRE(vm::is_equal(m * vm::vec3d(0, 0, 0), vm::vec3d(0, 0, 1), 1e-9));
""")
bug("C13-scale-anchor-only-min", "C13", [("mat_ext.h", """  return translation_matrix(newBBox.min) * scaling_matrix(scaleFactors) *
         translation_matrix(-oldBBox.min);""", """  return translation_matrix(newBBox.center()) * scaling_matrix(scaleFactors) *
         translation_matrix(-oldBBox.center());""")], "equivalent", "x", "") if False else None
bug("C13-projection-x-normal", "C13", [("mat_ext.h", """    case axis::x:
      xAxis = normalize(cross(normal, vec<T, 3>::pos_z()));
      break;""", """    case axis::x:
      xAxis = normalize(cross(normal, vec<T, 3>::pos_z()));
      if (normal.y() < static_cast<T>(0.0)) {
        xAxis = vec<T, 3>::pos_y();
      }
      break;""")], "plane normals dominated by x with a negative y component", "the projected axes are not in the plane",
 """
  const auto n = vm::normalize(vm::vec3d(4, -2, 1));
  const auto m = vm::plane_projection_matrix(3.0, n, n);
  const auto [ok, i] = vm::invert(m);
  REQUIRE(ok && near(vm::dot(i * vm::vec3d(1, 0, 0), n), 3));
""")
bug("C13-strip-translation-w", "C13", [("mat_ext.h", """  mat<T, S, S> result(m);
  for (size_t i = 0; i < S - 1; ++i) {
    result[S - 1][i] = static_cast<T>(0.0);
  }""", """  mat<T, S, S> result(m);
  result[S - 1] = vec<T, S>::axis(S - 1);""")], "matrices whose last element is not one", "stripping the translation also changes the homogeneous scale",
 """
  vm::mat4x4d m; m[3][3] = 2; m[3][0] = 5;
  REQUIRE(vm::strip_translation(m)[3][3] == 2);
""")
bug("C14-perspective-swapped-aspect", "C14", [("mat_ext.h", "  const auto hFrustum = vFrustum * static_cast<T>(width) / static_cast<T>(height);", "  const auto hFrustum = vFrustum * static_cast<T>(width / height + (width % height) / static_cast<float>(height));")], "viewports whose aspect ratio is no exact float fraction, in double precision", "the horizontal field of view is off by a float rounding error",
 """
  const auto m = vm::perspective_matrix(90.0, 1.0, 100.0, 1000, 3);
  REQUIRE(near(m[0][0], 1.0 / (0.75 * 1000.0 / 3.0), 1e-14));
""")
bug("C14-view-up", "C14", [("mat_ext.h", "  const auto u = cross(s, f);", "  const auto& u = up;")], "an up vector not perpendicular to the direction", "not a rotation", """
  const auto m = vm::view_matrix(vm::normalize(vm::vec3d(1, 0, -1)), vm::vec3d::pos_z());
  REQUIRE(near(vm::dot(m * vm::normalize(vm::vec3d(1, 0, -1)), vm::vec3d::pos_y()), 0));
""") if False else None
bug("C14-ortho-depth", "C14", [("mat_ext.h", "    -(top + bottom) / height, zero, zero, -two / depth, -(farPlane + nearPlane) / depth, zero, zero,", "    -(top + bottom) / height, zero, zero, -two / depth, -(depth + nearPlane) / depth, zero, zero,")], "near planes other than zero", "the far plane does not map to one",
 """
  const auto m = vm::ortho_matrix(1.0, 11.0, -1.0, 1.0, 1.0, -1.0);
  REQUIRE(near((m * vm::vec3d(0, 0, -11)).z(), 1));
""")
bug("C15-intersects-touching", "C15", [("bbox.h", "      if (b.max[i] < min[i] || b.min[i] > max[i]) {", "      if (b.max[i] < min[i] || (b.min[i] >= max[i] && min[i] < max[i])) {")], "boxes that touch in exactly one coordinate from above", "touching boxes do not intersect, and intersection is not symmetric",
 """
  const vm::bbox3d a(vm::vec3d(0, 0, 0), vm::vec3d(1, 1, 1)), b(vm::vec3d(0, 1, 0), vm::vec3d(1, 2, 1));
  REQUIRE(a.intersects(b) && b.intersects(a));
""")
bug("C15-vertex-traversal-rounding", "C15", [("bbox.h", "    op(max);\n    op(max - y);\n    op(min + z);\n    op(max - x);", "    op(max);\n    op(max - y);\n    op(max - y - x - (boxSize.x() > boxSize.y() ? z * T(0.5) : z * T(0.0)));\n    op(max - x);")], "boxes wider than deep", "a vertex is not a corner",
 """
  const vm::bbox3d a(vm::vec3d(0, 0, 0), vm::vec3d(4, 2, 1));
  for (const auto& v : a.vertices()) REQUIRE(v.z() == 0 || v.z() == 1);
""")
bug("C15-constrain-empty", "C15", [("bbox.h", "    return vm::max(min, vm::min(max, point));", "    return contains(point) ? point : vm::max(min, vm::min(max, vm::abs_min(point, point + size() * T(0.0))));")], "eq", "x", "") if False else None
bug("C15-repair-partial", "C15", [("bbox.h", "  return bbox<T, S>(min(box.min, box.max), max(box.min, box.max));", "  return box.min < box.max ? bbox<T, S>(box.min, max(box.min, box.max)) : bbox<T, S>(min(box.min, box.max), max(box.min, box.max));")], "invalid boxes whose minimum is lexicographically smaller", "a valid component-wise minimum is not restored",
 """
  vm::bbox3d b; b.min = vm::vec3d(0, 5, 0); b.max = vm::vec3d(1, 2, 1);
  const auto r = vm::repair(b);
  REQUIRE(r.min == vm::vec3d(0, 2, 0) && r.max == vm::vec3d(1, 5, 1));
""")
bug("C16-builder-empty-first-box", "C16", [("bbox.h", """    constexpr void add(const bbox& box) {
      if (!initialized()) {""", """    constexpr void add(const bbox& box) {
      if (!initialized() || m_bounds.min == m_bounds.max) {""")], "a single point (or repeated point) followed by a box", "the point is forgotten",
 """
  vm::bbox3d::builder b;
  b.add(vm::vec3d(9, 9, 9));
  b.add(vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(1, 1, 1)));
  REQUIRE(b.bounds().max == vm::vec3d(9, 9, 9));
""")
bug("C16-merge-all-projection", "C16", [("bbox.h", "      result = merge(result, get(*cur++));", "      result = contains_lex(result, get(*cur)) ? (++cur, result) : merge(result, get(*cur++));")], "x", "x", "") if False else None
bug("C16-merge-point-inside", "C16", [("bbox.h", """constexpr bbox<T, S> merge(const bbox<T, S>& lhs, const vec<T, S>& rhs) {
  return bbox<T, S>(min(lhs.min, rhs), max(lhs.max, rhs));""", """constexpr bbox<T, S> merge(const bbox<T, S>& lhs, const vec<T, S>& rhs) {
  if (lhs.min <= rhs && rhs <= lhs.max) {
    return lhs;
  }
  return bbox<T, S>(min(lhs.min, rhs), max(lhs.max, rhs));""")], "points between the corners in lexicographic order but outside of the box", "such points are not merged",
 """
  const auto r = vm::merge(vm::bbox3d(vm::vec3d(0, 0, 0), vm::vec3d(2, 2, 2)), vm::vec3d(1, 9, 1));
  REQUIRE(r.max == vm::vec3d(2, 9, 2));
""")
