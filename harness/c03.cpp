// C03  vector construction and arithmetic are componentwise
// mc-flags: -O1 ubsan asan
// mc-assume: results that overflow or divide by zero are compared only where IEEE arithmetic defines them (float types); integer operands stay in the range where the scalar operation is defined
#include "mc.hpp"
#include <vecmath/vec.h>
#include <vecmath/vec_ext.h>
#include <list>
#include <iterator>
using mc::Ctx;
using mc::same;
using vm::vec;

template <class T> std::vector<T> base() { return {T(0), T(1), T(-2), T(3)}; }
template <class T> std::vector<T> rich() {
  if constexpr (std::is_floating_point_v<T>) {
    using L = std::numeric_limits<T>;
    return {-T(0), T(-1), T(0.5), T(-0.75), T(-2.7), T(-31.4), T(37.3), T(7), T(100), T(-4096), T(123456.5), T(16777217), T(1e-3), T(1e-7), L::epsilon(), L::min(), L::denorm_min(), T(1e18), T(-1e30), L::max(), L::lowest(), L::infinity(), -L::infinity(), L::quiet_NaN()};
  } else
    return {T(-1), T(2), T(5), T(-7), T(100), T(256), T(-4096), T(12345), T(-20000)};
}
template <class T> std::vector<T> finite_rich() {
  return {T(-1), T(0.5), T(-0.75), T(-2.7), T(-31.4), T(37.3), T(7), T(100), T(-4096), T(1e-3), T(12345.5), T(-1e5), T(1e6), T(1.0005), T(-0.9995), T(1.00001), T(0.99999), T(1.1), T(-1.0 / 3), T(5e-6), T(-2e-8), T(1e8 + 1), T(-1e9)};
}
template <class T, std::size_t S> vec<T, S> make(Ctx& c, bool fin = false) {
  static const auto B = base<T>();
  static const auto R = rich<T>();
  static const auto F = finite_rich<T>();
  vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) v[i] = c.pick_dev(B, fin ? F : R);
  return v;
}
template <class V> bool eqv(const V& a, const V& b) {
  for (std::size_t i = 0; i < V::size; ++i)
    if (!same(a[i], b[i])) return false;
  return true;
}

// ---- binary operators and componentwise functions
template <class T, std::size_t S> void binary(Ctx& c) {
  const auto a = make<T, S>(c), b = make<T, S>(c);
  NOTE("a=", a, " b=", b);
  const auto a0 = a, b0 = b;
  const vec<T, S> sum = a + b, dif = a - b, prod = a * b, neg = -a, pos = +a;
  const vec<T, S> mi = vm::min(a, b), ma = vm::max(a, b), ab = vm::abs(a), am = vm::abs_min(a, b), ax = vm::abs_max(a, b);
  const vec<T, S> st = vm::step(a, b), sg = vm::sign(a);
  const T s = b[S - 1];
  const vec<T, S> sc = a * s, cs = s * a;
  for (std::size_t i = 0; i < S; ++i) {
    CHECK(same(sum[i], T(a[i] + b[i])), "+ component ", i, ": ", a, " ", b, " -> ", sum);
    CHECK(same(dif[i], T(a[i] - b[i])), "- component ", i, ": ", a, " ", b, " -> ", dif);
    CHECK(same(prod[i], T(a[i] * b[i])), "* component ", i, ": ", a, " ", b, " -> ", prod);
    CHECK(same(sc[i], T(a[i] * s)) && same(cs[i], T(a[i] * s)), "scalar * component ", i, ": ", a, " ", s, " -> ", sc, " ", cs);
    CHECK(same(neg[i], T(-a[i])), "negation component ", i, ": ", a, " -> ", neg);
    CHECK(same(pos[i], a[i]), "unary + ", a);
    CHECK(same(mi[i], vm::min(a[i], b[i])), "min component ", i, ": ", a, " ", b, " -> ", mi);
    CHECK(same(ma[i], vm::max(a[i], b[i])), "max component ", i, ": ", a, " ", b, " -> ", ma);
    CHECK(same(ab[i], vm::abs(a[i])), "abs component ", i, ": ", a, " -> ", ab);
    CHECK(same(am[i], vm::abs_min(a[i], b[i])), "abs_min component ", i, ": ", a, " ", b, " -> ", am);
    CHECK(same(ax[i], vm::abs_max(a[i], b[i])), "abs_max component ", i, ": ", a, " ", b, " -> ", ax);
    CHECK(same(st[i], vm::step(a[i], b[i])), "step component ", i, ": ", a, " ", b, " -> ", st);
    CHECK(same(sg[i], vm::sign(a[i])), "sign component ", i, ": ", a, " -> ", sg);
    if constexpr (std::is_floating_point_v<T>) {
      const vec<T, S> q = a / b, qs = a / s, sq = s / a;
      // division by zero is outside the scalar operation's domain under ubsan only for integers
      CHECK(same(q[i], T(a[i] / b[i])), "/ component ", i, ": ", a, " ", b, " -> ", q);
      CHECK(same(qs[i], T(a[i] / s)), "/ scalar component ", i, ": ", a, " ", s, " -> ", qs);
      CHECK(same(sq[i], T(s / a[i])), "scalar / component ", i, ": ", a, " ", s, " -> ", sq);
    } else {
      bool nz = s != 0;
      for (std::size_t k = 0; k < S; ++k) nz = nz && b[k] != 0;
      if (nz) {
        const vec<T, S> q = a / b, qs = a / s, sq = s / b;
        CHECK(q[i] == T(a[i] / b[i]) && qs[i] == T(a[i] / s) && sq[i] == T(s / b[i]), "integer division component ", i, ": ", a, " ", b);
      }
    }
  }
  CHECK(eqv(a, a0) && eqv(b, b0), "operand modified");
  c.op(15);
  c.state(a, b);
}
MC_INSTANCE("binary_d1", (binary<double, 1>), 2, 2)
MC_INSTANCE("binary_d2", (binary<double, 2>), 2, 3)
MC_INSTANCE("binary_d3", (binary<double, 3>), 1, 2)
MC_INSTANCE("binary_d4", (binary<double, 4>), 0, 1)
MC_INSTANCE("binary_d5", (binary<double, 5>), 0, 0, true)
MC_INSTANCE("binary_f2", (binary<float, 2>), 2, 2)
MC_INSTANCE("binary_f3", (binary<float, 3>), 1, 2)
MC_INSTANCE("binary_f4", (binary<float, 4>), 0, 1)
MC_INSTANCE("binary_i2", (binary<int, 2>), 2, 2)
MC_INSTANCE("binary_i3", (binary<int, 3>), 1, 2)
MC_INSTANCE("binary_l4", (binary<long, 4>), 0, 1)

// one operand fixed pattern, wide vectors: every component position with every special value
template <class T, std::size_t S> void wide(Ctx& c) {
  static const auto R = rich<T>();
  vec<T, S> a, b;
  for (std::size_t i = 0; i < S; ++i) a[i] = T(int(i) + 1), b[i] = T(3 - 2 * int(i));
  const auto p = c.choose(S), q = c.choose(S);
  a[p] = c.pick(R);
  b[q] = c.pick(R);
  const bool sw = c.flag();
  if (sw) std::swap(a, b);
  const vec<T, S> sum = a + b, dif = a - b, prod = a * b, mi = vm::min(a, b), ma = vm::max(a, b), neg = -a, am = vm::abs_max(a, b), an = vm::abs_min(a, b), sc = a * b[q];
  NOTE("a=", a, " b=", b);
  for (std::size_t i = 0; i < S; ++i)
    CHECK(same(sum[i], T(a[i] + b[i])) && same(dif[i], T(a[i] - b[i])) && same(prod[i], T(a[i] * b[i])) && same(mi[i], vm::min(a[i], b[i])) && same(ma[i], vm::max(a[i], b[i])) && same(neg[i], T(-a[i])) && same(am[i], vm::abs_max(a[i], b[i])) && same(an[i], vm::abs_min(a[i], b[i])) && same(sc[i], T(a[i] * b[q])), "component ", i, " of an operation on ", a, " and ", b);
  c.op(9);
  c.state(S, a, b);
}
MC_INSTANCE("wide_d4", (wide<double, 4>))
MC_INSTANCE("wide_d5", (wide<double, 5>))
MC_INSTANCE("wide_d6", (wide<double, 6>))
MC_INSTANCE("wide_f4", (wide<float, 4>))
MC_INSTANCE("wide_f7", (wide<float, 7>))
MC_INSTANCE("wide_d9", (wide<double, 9>))
MC_INSTANCE("wide_i4", (wide<int, 4>))

// ---- ternary and variadic functions
template <class T, std::size_t S> void ternary(Ctx& c) {
  const auto a = make<T, S>(c, true), b = make<T, S>(c, true), d = make<T, S>(c, true);
  NOTE("a=", a, " b=", b, " c=", d);
  const vec<T, S> m3 = vm::min(a, b, d), x3 = vm::max(a, b, d), am = vm::abs_min(a, b, d), ax = vm::abs_max(a, b, d), cl = vm::clamp(a, b, d), ss = vm::smoothstep(b, d, a), mx = vm::mix(a, b, d), m4 = vm::min(a, b, d, a), x4 = vm::max(d, b, d, a), md = vm::mod(a, b), fr = vm::fract(a);
  for (std::size_t i = 0; i < S; ++i) {
    CHECK(same(m3[i], vm::min(a[i], b[i], d[i])) && same(m4[i], m3[i]), "min of 3, component ", i, ": ", a, b, d, " -> ", m3, m4);
    CHECK(same(x3[i], vm::max(a[i], b[i], d[i])) && same(x4[i], x3[i]), "max of 3, component ", i, ": ", a, b, d, " -> ", x3, x4);
    CHECK(same(am[i], vm::abs_min(a[i], b[i], d[i])), "abs_min of 3, component ", i, ": ", a, b, d, " -> ", am);
    CHECK(same(ax[i], vm::abs_max(a[i], b[i], d[i])), "abs_max of 3, component ", i, ": ", a, b, d, " -> ", ax);
    if (b[i] <= d[i]) CHECK(same(cl[i], a[i] < b[i] ? b[i] : a[i] > d[i] ? d[i] : a[i]), "clamp component ", i, ": ", a, b, d, " -> ", cl);
    if (b[i] < d[i]) CHECK(mc::close(ss[i], vm::smoothstep(b[i], d[i], a[i]), 4 * std::numeric_limits<T>::epsilon()), "smoothstep component ", i, ": ", a, b, d, " -> ", ss);
    const long double scale = (1 + std::fabs((long double)d[i])) * (std::fabs((long double)a[i]) + std::fabs((long double)b[i])) + 1;
    CHECK(std::fabs((long double)mx[i] - ((1 - (long double)d[i]) * a[i] + (long double)d[i] * b[i])) <= 4 * std::numeric_limits<T>::epsilon() * scale, "mix component ", i, ": ", a, b, d, " -> ", mx);
    if (d[i] == T(0)) CHECK(mx[i] == a[i], "mix with 0 is not the first operand: ", a, b, d, " -> ", mx);
    if (d[i] == T(1)) CHECK(mx[i] == b[i], "mix with 1 is not the second operand: ", a, b, d, " -> ", mx);
    if (b[i] != T(0)) CHECK(same(md[i], vm::mod(a[i], b[i])), "mod component ", i, ": ", a, b, " -> ", md);
    CHECK(same(fr[i], vm::fract(a[i])), "fract component ", i, ": ", a, " -> ", fr);
  }
  c.op(11);
  c.state(a, b, d);
}
MC_INSTANCE("ternary_d1", (ternary<double, 1>), 3, 3)
MC_INSTANCE("ternary_d2", (ternary<double, 2>), 2, 3)
MC_INSTANCE("ternary_d3", (ternary<double, 3>), 1, 1)
MC_INSTANCE("ternary_f2", (ternary<float, 2>), 1, 2)
MC_INSTANCE("ternary_f3", (ternary<float, 3>), 1, 1)

// ---- rounding family on vectors acts like the scalar version (values: C04)
template <class T, std::size_t S> void unary(Ctx& c) {
  static const auto R = rich<T>();
  vec<T, S> a, m;
  for (std::size_t i = 0; i < S; ++i) a[i] = c.pick(R);
  static const std::vector<T> G{T(1), T(4), T(0.5), T(0)};
  for (std::size_t i = 0; i < S; ++i) m[i] = G[(i + c.choose(4)) % 3];
  for (std::size_t i = 0; i < S; ++i) {
    if (!std::isfinite(a[i]) || std::fabs(a[i]) > T(1e18)) continue;
  }
  bool fin = true;
  for (std::size_t i = 0; i < S; ++i) fin = fin && std::isfinite(a[i]);
  NOTE("a=", a, " m=", m);
  bool nan = false;
  for (std::size_t i = 0; i < S; ++i) nan = nan || std::isnan(a[i]);
  CHECK(vm::is_nan(a) == nan, "is_nan ", a);
  if (fin) {
    const auto f = vm::floor(a), ce = vm::ceil(a), t = vm::trunc(a), r = vm::round(a), fr = vm::fract(a), co = vm::correct(a), c2 = vm::correct(a, 2);
    for (std::size_t i = 0; i < S; ++i) {
      CHECK(same(f[i], std::floor(a[i])), "floor component ", i, ": ", a, " -> ", f);
      CHECK(same(ce[i], std::ceil(a[i])), "ceil component ", i, ": ", a, " -> ", ce);
      CHECK(same(t[i], std::trunc(a[i])), "trunc component ", i, ": ", a, " -> ", t);
      CHECK(same(r[i], std::round(a[i])), "round component ", i, ": ", a, " -> ", r);
      CHECK(same(fr[i], vm::fract(a[i])), "fract component ", i, ": ", a, " -> ", fr);
      CHECK(same(co[i], vm::correct(a[i])) && same(c2[i], vm::correct(a[i], 2)), "correct component ", i, ": ", a, " -> ", co, c2);
    }
    bool small = true;
    for (std::size_t i = 0; i < S; ++i) small = small && std::fabs(a[i]) < T(1e6);
    if (small) {
      const auto s = vm::snap(a, m);
      for (std::size_t i = 0; i < S; ++i) CHECK(same(s[i], vm::snap(a[i], m[i])), "snap component ", i, ": ", a, m, " -> ", s);
    }
  }
  c.op(8);
  c.state(a, m);
}
MC_INSTANCE("unary_d2", (unary<double, 2>))
MC_INSTANCE("unary_f2", (unary<float, 2>))
MC_INSTANCE("unary_d3", (unary<double, 3>))
MC_INSTANCE("unary_f3", (unary<float, 3>), 0, 0, true)

// ---- metric functions against extended precision
template <class T, std::size_t S> void metric(Ctx& c) {
  const auto a = make<T, S>(c, true), b = make<T, S>(c, true);
  NOTE("a=", a, " b=", b);
  long double d = 0, la = 0, lb = 0, dd = 0;
  for (std::size_t i = 0; i < S; ++i) {
    d += (long double)a[i] * b[i];
    la += (long double)a[i] * a[i];
    lb += (long double)b[i] * b[i];
    dd += ((long double)a[i] - b[i]) * ((long double)a[i] - b[i]);
  }
  const long double e = 8 * std::numeric_limits<T>::epsilon();
  CHECK(std::fabs(vm::dot(a, b) - d) <= e * (std::sqrt(la * lb) + 1e-30L), "dot(", a, ", ", b, ") = ", vm::dot(a, b));
  CHECK(mc::close(vm::squared_length(a), la, e, 1e-30L), "squared_length(", a, ") = ", vm::squared_length(a));
  CHECK(mc::close(vm::length(a), std::sqrt(la), e, 1e-30L), "length(", a, ") = ", vm::length(a));
  CHECK(std::fabs(vm::squared_distance(a, b) - dd) <= e * (la + lb + 1e-30L), "squared_distance(", a, ", ", b, ") = ", vm::squared_distance(a, b));
  CHECK(std::fabs(vm::distance(a, b) - std::sqrt(dd)) <= e * (std::sqrt(la) + std::sqrt(lb) + 1e-30L), "distance(", a, ", ", b, ") = ", vm::distance(a, b));
  if (la > 0) {
    const auto n = vm::normalize(a);
    for (std::size_t i = 0; i < S; ++i) CHECK(mc::close(n[i], a[i] / std::sqrt(la), e, 1e-30L), "normalize(", a, ") = ", n);
  }
  const auto h = vm::to_homogeneous_coords(a);
  static_assert(decltype(h)::size == S + 1);
  for (std::size_t i = 0; i < S; ++i) CHECK(h[i] == a[i], "to_homogeneous_coords ", a, " -> ", h);
  CHECK(h[S] == T(1), "to_homogeneous_coords ", a, " -> ", h);
  const auto back = vm::to_cartesian_coords(h);
  CHECK(eqv(back, a), "to_cartesian_coords does not undo to_homogeneous_coords: ", a, " -> ", back);
  if constexpr (S >= 2) {
    if (a[S - 1] != T(0)) {
      const auto k = vm::to_cartesian_coords(a);
      for (std::size_t i = 0; i + 1 < S; ++i) CHECK(mc::close(k[i], (long double)a[i] / a[S - 1], e, 1e-30L), "to_cartesian_coords ", a, " -> ", k);
    }
  }
  if constexpr (S == 3) {
    const auto x = vm::cross(a, b);
    const long double sc = std::sqrt(la * lb) + 1e-30L;
    const long double X[3] = {(long double)a[1] * b[2] - (long double)a[2] * b[1], (long double)a[2] * b[0] - (long double)a[0] * b[2], (long double)a[0] * b[1] - (long double)a[1] * b[0]};
    for (int i = 0; i < 3; ++i) CHECK(std::fabs(x[i] - X[i]) <= e * sc, "cross(", a, ", ", b, ") = ", x);
  }
  c.op(9);
  c.state(a, b);
}
MC_INSTANCE("metric_d1", (metric<double, 1>), 2, 2)
MC_INSTANCE("metric_d2", (metric<double, 2>), 3, 4)
MC_INSTANCE("metric_d3", (metric<double, 3>), 2, 3)
MC_INSTANCE("metric_d4", (metric<double, 4>), 0, 1)
MC_INSTANCE("metric_d5", (metric<double, 5>), 0, 0, true)
MC_INSTANCE("metric_f2", (metric<float, 2>), 2, 4)
MC_INSTANCE("metric_f3", (metric<float, 3>), 1, 2)
MC_INSTANCE("metric_f4", (metric<float, 4>), 0, 1)

// ---- construction, conversion, slicing, accessors
template <class T, class U, std::size_t S> void shapes(Ctx& c) {
  static const std::vector<U> R = [] {
    if constexpr (std::is_floating_point_v<U>) return std::vector<U>{U(0), U(1), U(-1.75), U(2.5), U(1000.25), U(-65536.5), U(16777216), U(1.1), U(-1e-7), U(33554433.75)};
    else return std::vector<U>{U(0), U(1), U(-2), U(77), U(-70000), U(16777216), U(-33554433), U(2147483647)};
  }();
  vec<U, S> a;
  for (std::size_t i = 0; i < S; ++i) a[i] = c.pick(R);
  NOTE("a=", a);
  const vec<T, S> same_size(a);
  for (std::size_t i = 0; i < S; ++i) CHECK(same_size[i] == static_cast<T>(a[i]), "converting constructor ", a, " -> ", same_size);
  const vec<T, S + 2> wide(a);
  for (std::size_t i = 0; i < S; ++i) CHECK(wide[i] == static_cast<T>(a[i]), "widening constructor ", a, " -> ", wide);
  CHECK(wide[S] == T(0) && wide[S + 1] == T(0), "widening constructor does not zero-fill: ", wide);
  const vec<T, S + 1> ext(a, a[0]);
  for (std::size_t i = 0; i < S; ++i) CHECK(ext[i] == static_cast<T>(a[i]), "extending constructor ", a, " -> ", ext);
  CHECK(ext[S] == static_cast<T>(a[0]), "extending constructor last value ", ext);
  const vec<T, S + 3> ext3(a, a[0], a[S - 1], U(9));
  for (std::size_t i = 0; i < S; ++i) CHECK(ext3[i] == static_cast<T>(a[i]), "extending constructor ", a, " -> ", ext3);
  CHECK(ext3[S] == static_cast<T>(a[0]) && ext3[S + 1] == static_cast<T>(a[S - 1]) && ext3[S + 2] == T(9), "extending constructor rest ", a, " -> ", ext3);
  if constexpr (S >= 2) {
    const vec<T, S - 1> nar(a);
    for (std::size_t i = 0; i + 1 < S; ++i) CHECK(nar[i] == static_cast<T>(a[i]), "narrowing constructor ", a, " -> ", nar);
    for (std::size_t o = 0; o <= 1; ++o) {
      const auto sl = vm::slice<S - 1>(a, o);
      for (std::size_t i = 0; i + 1 < S; ++i) CHECK(sl[i] == a[i + o], "slice at ", o, " of ", a, " -> ", sl);
    }
    for (std::size_t o = 0; o < S; ++o) CHECK(vm::slice<1>(a, o)[0] == a[o], "slice<1> at ", o, " of ", a);
    const auto full = vm::slice<S>(a, 0);
    CHECK(eqv(full, a), "full slice ", full);
    CHECK(a.x() == a[0] && a.y() == a[1], "accessors ", a);
    CHECK(a.xy()[0] == a[0] && a.xy()[1] == a[1], "xy ", a);
  }
  if constexpr (S >= 3) {
    CHECK(a.z() == a[2], "z ", a);
    CHECK(a.xz()[0] == a[0] && a.xz()[1] == a[2], "xz ", a);
    CHECK(a.yz()[0] == a[1] && a.yz()[1] == a[2], "yz ", a);
    for (int i = 0; i < 3; ++i) CHECK(a.xyz()[i] == a[i], "xyz ", a);
    for (std::size_t o = 0; o + 2 <= S; ++o) CHECK(vm::slice<2>(a, o)[0] == a[o] && vm::slice<2>(a, o)[1] == a[o + 1], "slice<2> ", a);
  }
  if constexpr (S >= 4) {
    CHECK(a.w() == a[3], "w ", a);
    for (int i = 0; i < 4; ++i) CHECK(a.xyzw()[i] == a[i], "xyzw ", a);
  }
  // copies and assignment
  vec<U, S> b(a), d;
  d = a;
  CHECK(eqv(a, b) && eqv(a, d), "copy ", a);
  for (std::size_t i = 0; i < S; ++i) {
    d[i] = U(5);
    for (std::size_t k = 0; k < S; ++k) CHECK(d[k] == (k <= i ? U(5) : a[k]), "element write ", i, " -> ", d);
  }
  const auto f = vec<U, S>::fill(a[0]);
  for (std::size_t i = 0; i < S; ++i) CHECK(f[i] == a[0], "fill ", f);
  c.op(12);
  c.state(a);
}
MC_INSTANCE("shapes_dd1", (shapes<double, double, 1>))
MC_INSTANCE("shapes_dd2", (shapes<double, double, 2>))
MC_INSTANCE("shapes_dd3", (shapes<double, double, 3>))
MC_INSTANCE("shapes_dd4", (shapes<double, double, 4>))
MC_INSTANCE("shapes_fd3", (shapes<float, double, 3>))
MC_INSTANCE("shapes_df4", (shapes<double, float, 4>))
MC_INSTANCE("shapes_id3", (shapes<int, double, 3>))
MC_INSTANCE("shapes_di4", (shapes<double, int, 4>))
MC_INSTANCE("shapes_if2", (shapes<int, float, 2>))
MC_INSTANCE("shapes_li3", (shapes<long, int, 3>))
MC_INSTANCE("shapes_dd5", (shapes<double, double, 5>))

template <class T, std::size_t S> void init_list(Ctx& c) {
  const T x = T(3), y = T(-4), z = T(5), w = T(6), u = T(7);
  const vec<T, S> d;
  for (std::size_t i = 0; i < S; ++i) CHECK(d[i] == T(0), "default constructor ", d);
  const vec<T, S> l0(std::initializer_list<T>{}), l1{x}, l2{x, y}, l3{x, y, z}, l5{x, y, z, w, u};
  const T A[5] = {x, y, z, w, u};
  for (std::size_t i = 0; i < S; ++i) {
    CHECK(l0[i] == T(0) && l1[i] == (i < 1 ? A[i] : T(0)) && l2[i] == (i < 2 ? A[i] : T(0)) && l3[i] == (i < 3 ? A[i] : T(0)) && l5[i] == (i < 5 ? A[i] : T(0)), "initializer list component ", i, " size ", S);
  }
  const std::size_t k = c.choose(S);
  const auto ax = vec<T, S>::axis(k);
  for (std::size_t i = 0; i < S; ++i) CHECK(ax[i] == (i == k ? T(1) : T(0)), "axis ", k, " -> ", ax);
  const auto px = vec<T, S>::pos_x(), nx = vec<T, S>::neg_x(), ze = vec<T, S>::zero(), on = vec<T, S>::one(), mx = vec<T, S>::max();
  for (std::size_t i = 0; i < S; ++i) {
    CHECK(px[i] == (i == 0 ? T(1) : T(0)) && nx[i] == (i == 0 ? T(-1) : T(0)), "x axes");
    CHECK(ze[i] == T(0) && on[i] == T(1) && mx[i] == std::numeric_limits<T>::max(), "constants");
    if constexpr (S >= 2) CHECK((vec<T, S>::pos_y()[i] == (i == 1 ? T(1) : T(0))) && (vec<T, S>::neg_y()[i] == (i == 1 ? T(-1) : T(0))), "y axes");
    if constexpr (S >= 3) CHECK((vec<T, S>::pos_z()[i] == (i == 2 ? T(1) : T(0))) && (vec<T, S>::neg_z()[i] == (i == 2 ? T(-1) : T(0))), "z axes");
    if constexpr (std::is_floating_point_v<T>) CHECK(std::isnan(vec<T, S>::nan()[i]), "nan()");
  }
  if constexpr (S == 3) {
    const vec<T, 3> e(7.9, -3.9f, 2);
    CHECK(e[0] == static_cast<T>(7.9) && e[1] == static_cast<T>(-3.9f) && e[2] == T(2), "explicit constructor ", e);
  }
  if constexpr (S == 4) {
    const vec<T, 4> e(7.9, -3.9f, 2, 'a');
    CHECK(e[0] == static_cast<T>(7.9) && e[1] == static_cast<T>(-3.9f) && e[2] == T(2) && e[3] == T('a'), "explicit constructor ", e);
  }
  c.op(10);
  c.state(S, k);
}
MC_INSTANCE("init_d1", (init_list<double, 1>))
MC_INSTANCE("init_d2", (init_list<double, 2>))
MC_INSTANCE("init_d3", (init_list<double, 3>))
MC_INSTANCE("init_d4", (init_list<double, 4>))
MC_INSTANCE("init_d5", (init_list<double, 5>))
MC_INSTANCE("init_d7", (init_list<double, 7>))
MC_INSTANCE("init_f3", (init_list<float, 3>))
MC_INSTANCE("init_i3", (init_list<int, 3>))
MC_INSTANCE("init_i4", (init_list<int, 4>))

// ---- collections: sums, products, averages over every list up to a length
template <class T, std::size_t S, std::size_t MAXN> void lists(Ctx& c) {
  static const std::vector<T> B{T(0), T(1), T(-2), T(3.3)};
  const T z = T(c.pick(std::vector<double>{1, 1.1e-7, 3.3e6}));
  const std::size_t n = c.choose(MAXN + 1);
  std::vector<vec<T, S>> l(n);
  // vectors are built from one chosen value per element, spread over the components
  for (auto& e : l) {
    const T x = c.pick(B), y = c.pick(B);
    for (std::size_t i = 0; i < S; ++i) e[i] = (i % 2 ? y - T(int(i)) : x + T(2 * int(i))) * z;
  }
  vec<T, S> o;
  const T s = c.pick(B);
  for (std::size_t i = 0; i < S; ++i) o[i] = (s * T(int(i) + 1) - T(0.3)) * z;
  NOTE("list=", l, " o=", o, " s=", s);
  const auto keep = l;
  const auto p = l + o, p2 = o + l, m = l * s, m2 = s * l;
  CHECK(p.size() == n && p2.size() == n && m.size() == n && m2.size() == n, "length changed");
  for (std::size_t k = 0; k < n; ++k)
    for (std::size_t i = 0; i < S; ++i) {
      CHECK(p[k][i] == l[k][i] + o[i] && p2[k][i] == p[k][i], "list + vector, element ", k, ": ", l, " + ", o, " -> ", p);
      CHECK(m[k][i] == l[k][i] * s && m2[k][i] == m[k][i], "list * scalar, element ", k, ": ", l, " * ", s, " -> ", m);
    }
  if (n == 3) {
    std::array<vec<T, S>, 3> a{l[0], l[1], l[2]};
    const auto ap = a + o, ap2 = o + a, am = a * s, am2 = s * a;
    for (std::size_t k = 0; k < 3; ++k) CHECK(eqv(ap[k], p[k]) && eqv(ap2[k], p[k]) && eqv(am[k], m[k]) && eqv(am2[k], m[k]), "array operation differs from the list operation, element ", k);
  }
  if (n > 0) {
    std::list<vec<T, S>> li(l.begin(), l.end());
    const vec<T, S> av = vm::average(l.begin(), l.end()), al = vm::average(li.begin(), li.end());
    std::vector<std::pair<int, vec<T, S>>> pr;
    for (std::size_t k = 0; k < n; ++k) pr.emplace_back(int(k), l[k]);
    const auto ag = vm::average(pr.begin(), pr.end(), [](const auto& q) { return q.second; });
    for (std::size_t i = 0; i < S; ++i) {
      long double sum = 0, mag = 0;
      for (const auto& e : l) sum += e[i], mag += std::fabs((long double)e[i]);
      const long double e = 8 * std::numeric_limits<T>::epsilon() * mag;
      CHECK(std::fabs(av[i] - sum / n) <= e && std::fabs(al[i] - sum / n) <= e, "average of ", l, " -> ", av, al);
      CHECK(std::fabs(ag[i] - sum / n) <= e, "average with getter of ", l, " -> ", ag);
    }
  }
  std::vector<vec<T, S>> out;
  vec<T, S>::get_vertices(l.begin(), l.end(), std::back_inserter(out));
  CHECK(out.size() == n, "get_vertices count");
  for (std::size_t k = 0; k < n; ++k) CHECK(eqv(out[k], l[k]) && eqv(keep[k], l[k]), "get_vertices element ", k);
  c.op(6);
  c.state(l, o);
}
MC_INSTANCE("lists_d3", (lists<double, 3, 4>))
MC_INSTANCE("lists_f3", (lists<float, 3, 4>))
MC_INSTANCE("lists_d2", (lists<double, 2, 4>))
MC_INSTANCE("lists_d4", (lists<double, 4, 3>))
MC_INSTANCE("lists_d3_long", (lists<double, 3, 5>), 0, 0, true)

// long collections: every length up to a bound and lengths around powers of two, every position of one odd element
template <class T, std::size_t S> void lists_long(Ctx& c) {
  static const std::vector<std::size_t> N{6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1025, 4097};
  const std::size_t n = c.pick(N);
  const std::size_t pos = n <= 33 ? c.choose(n) : std::vector<std::size_t>{0, 1, n / 2, n - 2, n - 1}[c.choose(5)];
  const T odd = c.pick(std::vector<T>{T(64), T(-1000), T(0.5)});
  std::vector<vec<T, S>> l(n);
  for (std::size_t k = 0; k < n; ++k)
    for (std::size_t i = 0; i < S; ++i) l[k][i] = T(int((k * 7 + i * 3) % 11)) - T(4);
  const std::size_t comp = c.choose(S);
  l[pos][comp] = odd;
  vec<T, S> o;
  for (std::size_t i = 0; i < S; ++i) o[i] = T(int(i)) + T(0.5);
  const T s = T(-2);
  NOTE("n=", n, " position ", pos, " component ", comp, " value ", odd);
  const auto keep = l;
  const auto p = l + o, p2 = o + l, m = l * s, m2 = s * l;
  CHECK(p.size() == n && p2.size() == n && m.size() == n && m2.size() == n, "length changed");
  for (std::size_t k = 0; k < n; ++k)
    for (std::size_t i = 0; i < S; ++i) {
      CHECK(l[k][i] == keep[k][i], "operand modified");
      CHECK(p[k][i] == l[k][i] + o[i] && p2[k][i] == p[k][i], "list + vector, element ", k, " of ", n);
      CHECK(m[k][i] == l[k][i] * s && m2[k][i] == m[k][i], "list * scalar, element ", k, " of ", n);
    }
  const std::list<vec<T, S>> li(l.begin(), l.end());
  const vec<T, S> av = vm::average(l.begin(), l.end()), al = vm::average(li.begin(), li.end());
  std::vector<std::pair<int, vec<T, S>>> pr;
  for (std::size_t k = 0; k < n; ++k) pr.emplace_back(int(k), l[k]);
  const auto ag = vm::average(pr.begin(), pr.end(), [](const auto& q) { return q.second; });
  for (std::size_t i = 0; i < S; ++i) {
    long double sum = 0, mag = 1;
    for (const auto& e : l) sum += e[i], mag += std::fabs((long double)e[i]);
    const long double e = 8 * std::numeric_limits<T>::epsilon() * mag;
    CHECK(std::fabs(av[i] - sum / n) <= e && std::fabs(al[i] - sum / n) <= e && std::fabs(ag[i] - sum / n) <= e, "average of ", n, " vectors, component ", i, " -> ", av, al, ag, " should be ", sum / n);
  }
  std::vector<vec<T, S>> out;
  vec<T, S>::get_vertices(l.begin(), l.end(), std::back_inserter(out));
  CHECK(out.size() == n, "get_vertices count");
  for (std::size_t k = 0; k < n; ++k) CHECK(eqv(out[k], l[k]), "get_vertices element ", k);
  c.op(6);
  c.state(n, pos, comp, odd);
}
MC_INSTANCE("lists_long_d3", (lists_long<double, 3>))
MC_INSTANCE("lists_long_f2", (lists_long<float, 2>))

template <class T, std::size_t S, std::size_t N> void arrays(Ctx& c) {
  std::array<vec<T, S>, N> a;
  for (std::size_t k = 0; k < N; ++k)
    for (std::size_t i = 0; i < S; ++i) a[k][i] = T(int((k * 5 + i * 3) % 13)) - T(6);
  const auto pos = c.choose(N), comp = c.choose(S);
  a[pos][comp] = c.pick(std::vector<T>{T(100), T(-0.5), T(0)});
  vec<T, S> o;
  for (std::size_t i = 0; i < S; ++i) o[i] = T(int(i)) - T(1.5);
  const T s = c.pick(std::vector<T>{T(-2), T(0), T(0.5)});
  const auto keep = a;
  const auto p = a + o, p2 = o + a, m = a * s, m2 = s * a;
  for (std::size_t k = 0; k < N; ++k)
    for (std::size_t i = 0; i < S; ++i) {
      CHECK(a[k][i] == keep[k][i], "operand modified");
      CHECK(p[k][i] == a[k][i] + o[i] && p2[k][i] == p[k][i], "array + vector, element ", k, " of ", N);
      CHECK(m[k][i] == a[k][i] * s && m2[k][i] == m[k][i], "array * scalar, element ", k, " of ", N);
    }
  c.op(4);
  c.state(N, pos, comp, s);
}
MC_INSTANCE("arrays_d3_1", (arrays<double, 3, 1>))
MC_INSTANCE("arrays_d3_2", (arrays<double, 3, 2>))
MC_INSTANCE("arrays_d2_4", (arrays<double, 2, 4>))
MC_INSTANCE("arrays_d3_5", (arrays<double, 3, 5>))
MC_INSTANCE("arrays_f3_8", (arrays<float, 3, 8>))
MC_INSTANCE("arrays_d4_9", (arrays<double, 4, 9>))
MC_INSTANCE("arrays_d3_17", (arrays<double, 3, 17>))

// scale: the metric functions commute with powers of two, far from overflow
template <class T, std::size_t S> void metric_scaled(Ctx& c) {
  static const std::vector<int> E = std::is_same_v<T, double> ? std::vector<int>{-400, -200, -100, -60, -40, -30, -20, -10, 10, 20, 30, 40, 60, 100, 200, 400} : std::vector<int>{-40, -30, -20, -10, 10, 20, 30, 40};
  static const std::vector<T> B{T(0), T(1), T(-2), T(3), T(0.75)};
  const int ea = c.pick(E), eb = c.pick(E);
  vec<T, S> a, b;
  for (std::size_t i = 0; i < S; ++i) a[i] = std::ldexp(c.pick(B), ea);
  for (std::size_t i = 0; i < S; ++i) b[i] = std::ldexp(c.pick(B), eb);
  NOTE("a=", a, " b=", b);
  long double d = 0, la = 0, lb = 0, dd = 0;
  for (std::size_t i = 0; i < S; ++i) d += (long double)a[i] * b[i], la += (long double)a[i] * a[i], lb += (long double)b[i] * b[i], dd += ((long double)a[i] - b[i]) * ((long double)a[i] - b[i]);
  const long double e = 8 * std::numeric_limits<T>::epsilon();
  CHECK(std::fabs(vm::dot(a, b) - d) <= e * std::sqrt(la * lb), "dot(", a, ", ", b, ") = ", vm::dot(a, b));
  CHECK(std::fabs(vm::squared_length(a) - la) <= e * la, "squared_length(", a, ") = ", vm::squared_length(a));
  CHECK(std::fabs(vm::length(a) - std::sqrt(la)) <= e * std::sqrt(la), "length(", a, ") = ", vm::length(a));
  CHECK(std::fabs(vm::distance(a, b) - std::sqrt(dd)) <= e * (std::sqrt(la) + std::sqrt(lb)), "distance(", a, ", ", b, ") = ", vm::distance(a, b));
  CHECK(std::fabs(vm::squared_distance(a, b) - dd) <= e * (la + lb), "squared_distance(", a, ", ", b, ") = ", vm::squared_distance(a, b));
  if (la > 0) {
    const auto n = vm::normalize(a);
    for (std::size_t i = 0; i < S; ++i) CHECK(std::fabs(n[i] - a[i] / std::sqrt(la)) <= e, "normalize(", a, ") = ", n);
  }
  if constexpr (S == 3) {
    const auto x = vm::cross(a, b);
    const long double X[3] = {(long double)a[1] * b[2] - (long double)a[2] * b[1], (long double)a[2] * b[0] - (long double)a[0] * b[2], (long double)a[0] * b[1] - (long double)a[1] * b[0]};
    for (int i = 0; i < 3; ++i) CHECK(std::fabs(x[i] - X[i]) <= e * std::sqrt(la * lb), "cross(", a, ", ", b, ") = ", x);
  }
  c.op(7);
  c.state(a, b);
}
MC_INSTANCE("metric_scaled_d2", (metric_scaled<double, 2>))
MC_INSTANCE("metric_scaled_f2", (metric_scaled<float, 2>))
MC_INSTANCE("metric_scaled_d3", (metric_scaled<double, 3>), 0, 0, true)
MC_INSTANCE("metric_scaled_f3", (metric_scaled<float, 3>))
