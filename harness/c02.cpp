// C02  component selection returns the k-th largest component
// mc-flags: -O2 ubsan
// mc-assume: components are ordered values (no NaN: selection needs a strict weak order); integer components stay clear of INT_MIN, whose magnitude is not representable
#include "mc.hpp"
#include <vecmath/vec.h>
#include <algorithm>
using mc::Ctx;
using vm::vec;

template <class T> std::vector<T> rich() {
  if constexpr (std::is_floating_point_v<T>) {
    using L = std::numeric_limits<T>;
    return {T(0), -T(0), L::denorm_min(), -L::denorm_min(), T(1) + L::epsilon(), -T(1) - L::epsilon(), T(1), T(-1), T(0.25), T(-0.25), T(3), T(-3), T(1000), T(-1000), T(123456), T(16777216), T(-16777217), L::max(), L::lowest(), L::infinity(), -L::infinity()};
  } else {
    using L = std::numeric_limits<T>;
    return {T(0), T(1), T(-1), T(2), T(-2), T(3), T(-3), T(255), T(256), T(-256), T(65537), T(-65537), T(16777217), L::max(), T(-L::max())};
  }
}
template <class T> std::vector<T> base() { return {T(0), T(1), T(-1), T(2), T(-2), T(3)}; }

template <class T, std::size_t S> void check_select(Ctx& c, const vec<T, S>& v) {
  std::vector<T> byval(S), byabs(S);
  for (std::size_t i = 0; i < S; ++i) {
    byval[i] = v[i];
    byabs[i] = v[i] < T(0) ? -v[i] : v[i];
  }
  std::sort(byval.begin(), byval.end(), std::greater<T>());
  std::sort(byabs.begin(), byabs.end(), std::greater<T>());
  unsigned seen = 0, seen_abs = 0;
  auto mag = [](T x) { return x < T(0) ? -x : x; };
  const vec<T, S> orig = v;
  for (std::size_t k = 0; k < S; ++k) {
    const auto i = vm::find_max_component(v, k);
    CHECK(i < S, "find_max_component index out of range: ", i);
    CHECK(v[i] == byval[k], "find_max_component(", v, ", ", k, ") = ", i, " is not the k-th largest");
    seen |= 1u << i;
    const auto j = vm::find_abs_max_component(v, k);
    CHECK(j < S, "find_abs_max_component index out of range: ", j);
    CHECK(mag(v[j]) == byabs[k], "find_abs_max_component(", v, ", ", k, ") = ", j, " is not the k-th largest magnitude");
    seen_abs |= 1u << j;
    const T m = vm::get_max_component(v, k);
    CHECK(m == byval[k], "get_max_component(", v, ", ", k, ") = ", m);
    const T am = vm::get_abs_max_component(v, k);
    bool member = false;
    for (std::size_t q = 0; q < S; ++q) member = member || v[q] == am;
    CHECK(mag(am) == byabs[k] && member, "get_abs_max_component(", v, ", ", k, ") = ", am);
    const auto ax = vm::get_abs_max_component_axis(v, k);
    std::size_t nz = 0, at = S;
    for (std::size_t q = 0; q < S; ++q)
      if (ax[q] != T(0)) ++nz, at = q;
    CHECK(nz == 1 && (ax[at] == T(1) || ax[at] == T(-1)), "axis is not a signed unit axis: ", v, " k=", k, " axis ", ax);
    CHECK(mag(v[at]) == byabs[k], "axis of wrong component: ", v, " k=", k, " axis ", ax);
    CHECK((ax[at] == T(-1)) == (v[at] < T(0)), "axis has wrong sign: ", v, " k=", k, " axis ", ax);
    c.op(5);
  }
  CHECK(seen == (1u << S) - 1, "indices over all k are not a permutation: ", v);
  CHECK(seen_abs == (1u << S) - 1, "indices (by magnitude) over all k are not a permutation: ", v);
  // default k is the largest
  CHECK(v[vm::find_max_component(v)] == byval[0], "find_max_component default k ", v);
  CHECK(mag(v[vm::find_abs_max_component(v)]) == byabs[0], "find_abs_max_component default k ", v);
  CHECK(vm::get_max_component(v) == byval[0], "get_max_component default k ", v);
  CHECK(mag(vm::get_abs_max_component(v)) == byabs[0], "get_abs_max_component default k ", v);
  CHECK(vm::get_abs_max_component_axis(v) == vm::get_abs_max_component_axis(v, 0), "axis default k ", v);
  for (std::size_t i = 0; i < S; ++i) CHECK(orig[i] == v[i], "input modified");
  c.op(5);
}

template <class T, std::size_t S> void select(Ctx& c) {
  static const auto B = base<T>();
  static const auto R = rich<T>();
  vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) v[i] = c.pick_dev(B, R);
  NOTE("v=", v);
  check_select(c, v);
  c.state(S, v);
}
MC_INSTANCE("select_d1", (select<double, 1>), 1, 1)
MC_INSTANCE("select_d2", (select<double, 2>), 2, 2)
MC_INSTANCE("select_d3", (select<double, 3>), 3, 3)
MC_INSTANCE("select_d4", (select<double, 4>), 3, 4)
MC_INSTANCE("select_f2", (select<float, 2>), 2, 2)
MC_INSTANCE("select_f3", (select<float, 3>), 3, 3)
MC_INSTANCE("select_f4", (select<float, 4>), 3, 4)
MC_INSTANCE("select_i2", (select<int, 2>), 2, 2)
MC_INSTANCE("select_i3", (select<int, 3>), 3, 3)
MC_INSTANCE("select_i4", (select<int, 4>), 3, 4)
MC_INSTANCE("select_l3", (select<long, 3>), 2, 3)
MC_INSTANCE("select_d5", (select<double, 5>), 1, 3)
MC_INSTANCE("select_d6", (select<double, 6>), 0, 2)
MC_INSTANCE("select_f8", (select<float, 8>), 0, 0, true)

// all permutations of wider vectors (order types without and with ties)
template <std::size_t S> void perms(Ctx& c) {
  vec<double, S> v;
  std::vector<double> pool;
  const bool ties = c.flag();
  for (std::size_t i = 0; i < S; ++i) pool.push_back(ties ? double(i / 2) : double(i));
  const bool signs = c.flag();
  for (std::size_t i = 0; i < S; ++i) {
    const auto k = c.choose(uint32_t(pool.size()));
    v[i] = pool[k] * (signs && (i % 2) ? -1.0 : 1.0);
    pool.erase(pool.begin() + k);
  }
  NOTE("v=", v);
  check_select(c, v);
  c.state(v);
}
MC_INSTANCE("perms_7", (perms<7>))
MC_INSTANCE("perms_8", (perms<8>), 0, 0, true)

// wide vectors: every pair of positions gets special values on top of a pattern
template <class T, std::size_t S> void wide(Ctx& c) {
  vec<T, S> v;
  const auto kind = c.choose(4);
  for (std::size_t i = 0; i < S; ++i) v[i] = kind == 0 ? T(0) : kind == 1 ? T(int(i)) : kind == 2 ? T(int(S - i)) : T(int(i * 7 % S) - int(S / 2));
  static const std::vector<T> V{T(0), T(1000), T(-1000), T(0.5), T(-0.5), T(3)};
  v[c.choose(S)] = c.pick(V);
  v[c.choose(S)] = c.pick(V);
  NOTE("v=", v);
  check_select(c, v);
  c.state(v);
}
MC_INSTANCE("wide_d9", (wide<double, 9>))
MC_INSTANCE("wide_f10", (wide<float, 10>))
MC_INSTANCE("wide_d16", (wide<double, 16>))
MC_INSTANCE("wide_d17", (wide<double, 17>))
MC_INSTANCE("wide_d24", (wide<double, 24>), 0, 0, true)

// cyclic rotation of components
template <class T> void swizzles(Ctx& c) {
  static const auto R = rich<T>();
  vec<T, 3> v;
  for (std::size_t i = 0; i < 3; ++i) v[i] = c.pick(R);
  const std::size_t axis = c.choose(4);
  const auto s = vm::swizzle(v, axis);
  const auto u = vm::unswizzle(v, axis);
  const std::size_t a = axis < 2 ? axis : 2;
  NOTE("v=", v, " axis=", axis);
  CHECK(s[2] == v[a], "swizzle(", v, ", ", axis, ") does not move the axis last: ", s);
  CHECK(s[0] == v[(a + 1) % 3] && s[1] == v[(a + 2) % 3], "swizzle(", v, ", ", axis, ") is not a cyclic rotation: ", s);
  const auto b1 = vm::unswizzle(s, axis);
  const auto b2 = vm::swizzle(u, axis);
  for (std::size_t i = 0; i < 3; ++i) CHECK(b1[i] == v[i] && b2[i] == v[i], "unswizzle does not undo swizzle: ", v, " axis ", axis);
  c.op(4);
  c.state(axis, v);
}
MC_INSTANCE("swizzle_d", (swizzles<double>))
MC_INSTANCE("swizzle_f", (swizzles<float>))
MC_INSTANCE("swizzle_i", (swizzles<int>))
