// C01  vector comparison is one consistent total preorder
// mc-assume: component alphabet is bounded (see ALPHA); order type, NaN placement and epsilon boundary are what the comparison can observe
#include "mc.hpp"
#include <vecmath/vec.h>
#include <list>
using mc::Ctx;
using vm::vec;

template <class T> struct Alpha;
template <> struct Alpha<double> {
  static std::vector<double> base() { return {0.0, 1.0, -1.0, std::nan("")}; }
  static std::vector<double> rich() {
    const double I = INFINITY, D = 4.9406564584124654e-324;
    return {0.0, -0.0, 1.0, -1.0, 2.0, 0.5, D, -D, 1e-300, 1e-3, 1 + 2.220446049250313e-16, 1 - 1.1102230246251565e-16, 4096.0, 4096.5, -4096.0, 123456.789, 16777216.0, 16777217.0, 9007199254740992.0, 9007199254740994.0, 1e300, -1e300, I, -I, std::nan("")};
  }
};
template <> struct Alpha<float> {
  static std::vector<float> base() { return {0.0f, 1.0f, -1.0f, std::nanf("")}; }
  static std::vector<float> rich() {
    const float I = INFINITY, D = 1.4e-45f;
    return {0.0f, -0.0f, 1.0f, -1.0f, 2.0f, 0.5f, D, -D, 1e-30f, 1e-3f, 1.00000012f, 0.99999994f, 4096.0f, 4096.5f, -4096.0f, 123456.789f, 16777216.0f, 16777218.0f, 1e30f, -1e30f, I, -I, std::nanf("")};
  }
};
template <> struct Alpha<int> {
  static std::vector<int> base() { return {0, 1, -1, 2}; }
  static std::vector<int> rich() { return {0, 1, -1, 2, -2, 7, 255, 256, -256, 65536, 16777216, 16777217, 2147483647, -2147483647 - 1, 2147483646}; }
};
template <> struct Alpha<unsigned> {
  static std::vector<unsigned> base() { return {0, 1, 2, 5}; }
  static std::vector<unsigned> rich() { return {0, 1, 2, 3, 7, 255, 256, 65536, 16777217, 2147483647u, 2147483648u, 4294967295u}; }
};
template <> struct Alpha<long> {
  static std::vector<long> base() { return {0, 1, -1, 2}; }
  static std::vector<long> rich() { return {0, 1, -1, 2, 4294967296L, 4294967297L, -4294967296L, 9007199254740993L, 9007199254740992L, 9223372036854775807L, -9223372036854775807L - 1}; }
};

// ---- reference: plain lexicographic three-way comparison, NaN above everything, NaN == NaN
template <class T> int ref1(T a, T b, T eps) {
  const bool an = a != a, bn = b != b;
  if (an || bn) return an == bn ? 0 : (bn ? -1 : 1);
  if (a == b) return 0;
  if constexpr (std::is_floating_point_v<T>) {
    const long double d = (long double)a - (long double)b;
    if (std::isinf(a) || std::isinf(b)) return a < b ? -1 : 1;
    if (std::fabs(d) <= (long double)eps) return 0;
    return d < 0 ? -1 : 1;
  } else {
    const __int128 d = (__int128)a - (__int128)b;
    if ((d < 0 ? -d : d) <= (__int128)eps) return 0;
    return d < 0 ? -1 : 1;
  }
}
template <class T, std::size_t S> int refv(const vec<T, S>& a, const vec<T, S>& b, T eps = T(0)) {
  for (std::size_t i = 0; i < S; ++i)
    if (const int r = ref1<T>(a[i], b[i], eps)) return r;
  return 0;
}
static int sgn(int x) { return (x > 0) - (x < 0); }

template <class T, std::size_t S> void check_ops(Ctx& c, const vec<T, S>& a, const vec<T, S>& b) {
  const int e = refv(a, b);
  const int r = vm::compare(a, b);
  CHECK(r == e, "compare(", a, ",", b, ") = ", r, ", expected ", e);
  CHECK(vm::compare(b, a) == -e, "compare not antisymmetric on ", a, b);
  CHECK((a == b) == (e == 0), "== wrong on ", a, b);
  CHECK((a != b) == (e != 0), "!= wrong on ", a, b);
  CHECK((a < b) == (e < 0), "< wrong on ", a, b);
  CHECK((a <= b) == (e <= 0), "<= wrong on ", a, b);
  CHECK((a > b) == (e > 0), "> wrong on ", a, b);
  CHECK((a >= b) == (e >= 0), ">= wrong on ", a, b);
  CHECK(vm::is_equal(a, b, T(0)) == (e == 0), "is_equal(eps=0) wrong on ", a, b);
  c.op(9);
}

// every pair of vectors over the base alphabet, with up to B components replaced by a special value
template <class T, std::size_t S> void pairs(Ctx& c) {
  static const auto base = Alpha<T>::base();
  static const auto rich = Alpha<T>::rich();
  vec<T, S> a, b;
  for (std::size_t i = 0; i < S; ++i) {
    a[i] = c.pick_dev(base, rich);
    b[i] = c.pick_dev(base, rich);
  }
  NOTE("a=", a, " b=", b);
  check_ops(c, a, b);
  c.state(S, a, b);
}
MC_INSTANCE("pairs_d1", (pairs<double, 1>), 2, 2)
MC_INSTANCE("pairs_d2", (pairs<double, 2>), 2, 4)
MC_INSTANCE("pairs_d3", (pairs<double, 3>), 2, 3)
MC_INSTANCE("pairs_d4", (pairs<double, 4>), 1, 2)
MC_INSTANCE("pairs_f1", (pairs<float, 1>), 2, 2)
MC_INSTANCE("pairs_f2", (pairs<float, 2>), 2, 4)
MC_INSTANCE("pairs_f3", (pairs<float, 3>), 2, 3)
MC_INSTANCE("pairs_f4", (pairs<float, 4>), 1, 2)
MC_INSTANCE("pairs_i1", (pairs<int, 1>), 2, 2)
MC_INSTANCE("pairs_i2", (pairs<int, 2>), 2, 4)
MC_INSTANCE("pairs_i3", (pairs<int, 3>), 2, 3)
MC_INSTANCE("pairs_i4", (pairs<int, 4>), 1, 2)
MC_INSTANCE("pairs_u2", (pairs<unsigned, 2>), 2, 4)
MC_INSTANCE("pairs_u3", (pairs<unsigned, 3>), 1, 2)
MC_INSTANCE("pairs_l3", (pairs<long, 3>), 2, 3)

// larger sizes: vectors that agree except at two positions
template <class T, std::size_t S> void pairs_wide(Ctx& c) {
  static const auto rich = Alpha<T>::rich();
  vec<T, S> a, b;
  for (std::size_t i = 0; i < S; ++i) a[i] = b[i] = T(i + 1);
  const auto i = c.choose(S), j = c.choose(S);
  a[i] = c.pick(rich);
  b[i] = c.pick(rich);
  a[j] = c.pick(rich);
  b[j] = c.pick(rich);
  NOTE("a=", a, " b=", b);
  check_ops(c, a, b);
  c.state(S, a, b);
}
MC_INSTANCE("wide_d5", (pairs_wide<double, 5>))
MC_INSTANCE("wide_f6", (pairs_wide<float, 6>))
MC_INSTANCE("wide_i8", (pairs_wide<int, 8>))

// order laws stated on the code alone: transitivity of < , <=, == over all triples
template <class T, std::size_t S> void triples(Ctx& c) {
  static const auto base = Alpha<T>::base();
  static const auto rich = Alpha<T>::rich();
  vec<T, S> v[3];
  for (auto& x : v)
    for (std::size_t i = 0; i < S; ++i) x[i] = S == 1 ? c.pick(rich) : c.pick_dev(base, rich);
  NOTE(v[0], v[1], v[2]);
  const int ab = vm::compare(v[0], v[1]), bc = vm::compare(v[1], v[2]), ac = vm::compare(v[0], v[2]);
  if (ab < 0 && bc < 0) CHECK(ac < 0, "transitivity of < broken: ", v[0], v[1], v[2]);
  if (ab <= 0 && bc <= 0) CHECK(ac <= 0, "transitivity of <= broken: ", v[0], v[1], v[2]);
  if (ab == 0 && bc == 0) CHECK(ac == 0, "transitivity of == broken: ", v[0], v[1], v[2]);
  if (ab == 0) CHECK(bc == ac, "equal vectors compare differently: ", v[0], v[1], v[2]);
  CHECK(vm::compare(v[0], v[0]) == 0, "not reflexive ", v[0]);
  c.op(4);
  c.state(S, ab, bc, ac, v[0], v[1], v[2]);
}
MC_INSTANCE("triples_d1", (triples<double, 1>))
MC_INSTANCE("triples_d2", (triples<double, 2>), 1, 2)
MC_INSTANCE("triples_d3", (triples<double, 3>), 0, 1)
MC_INSTANCE("triples_f2", (triples<float, 2>), 1, 2)
MC_INSTANCE("triples_f3", (triples<float, 3>), 0, 1)
MC_INSTANCE("triples_i2", (triples<int, 2>), 1, 2)

// epsilon comparison on exactly representable differences around the epsilon
template <class T, std::size_t S> void epsilon(Ctx& c) {
  // centres and offsets are multiples of 2^-10 of moderate size: sums and differences are exact
  static const std::vector<T> centre{T(0), T(1), T(-3), T(1000)};
  static const std::vector<T> eps{T(0), T(1) / 1024, T(1) / 4, T(1), T(8)};
  const T z = T(std::ldexp(1.0, S > 2 ? 0 : c.pick(std::vector<int>{0, -60, -30, -17, 15, 30, 60}))); // everything scaled by a power of two
  const T e = c.pick(eps) * z;
  const std::vector<T> off{T(0), e, -e, e + z / 2048, -e - z / 2048, e / 2, -e / 2, 2 * e, T(-100) * z, T(100) * z};
  vec<T, S> a, b;
  for (std::size_t i = 0; i < S; ++i) {
    a[i] = (i == 0 ? c.pick(centre) : centre[(i + 1) % 4]) * z;
    b[i] = a[i] + c.pick(off);
  }
  if (c.flag()) {
    const auto i = c.choose(S);
    (c.flag() ? a : b)[i] = std::numeric_limits<T>::quiet_NaN();
  }
  NOTE("eps=", e, " a=", a, " b=", b);
  const int x = refv(a, b, e);
  CHECK(vm::compare(a, b, e) == x, "compare(", a, ",", b, ", eps=", e, ") expected ", x);
  CHECK(vm::compare(b, a, e) == -x, "epsilon compare not antisymmetric ", a, b);
  CHECK(vm::is_equal(a, b, e) == (x == 0), "is_equal(", a, ",", b, ", eps=", e, ") expected ", x == 0);
  CHECK(vm::is_equal(b, a, e) == (x == 0), "is_equal not symmetric ", a, b);
  const std::vector<vec<T, S>> A{a}, B{b};
  CHECK(sgn(vm::compare(A.begin(), A.end(), B.begin(), B.end(), e)) == x, "range compare with epsilon");
  c.op(5);
  c.state(e, a, b);
}
MC_INSTANCE("epsilon_d1", (epsilon<double, 1>))
MC_INSTANCE("epsilon_d2", (epsilon<double, 2>))
MC_INSTANCE("epsilon_d3", (epsilon<double, 3>))
MC_INSTANCE("epsilon_d4", (epsilon<double, 4>))
MC_INSTANCE("epsilon_f3", (epsilon<float, 3>))
MC_INSTANCE("epsilon_f2", (epsilon<float, 2>))

// sequences of vectors
template <class T, std::size_t S> void ranges(Ctx& c) {
  static const std::vector<vec<T, S>> pts = [] {
    vec<T, S> n = vec<T, S>::fill(T(0)), l = n, h = n;
    n[S - 1] = std::numeric_limits<T>::quiet_NaN();
    l[S - 1] = T(-1);
    h[0] = T(2);
    return std::vector<vec<T, S>>{vec<T, S>::fill(T(0)), l, h, n};
  }();
  const auto N = c.tiered(3u, 5u);
  std::vector<vec<T, S>> a(c.choose(N + 1)), b(c.choose(N + 1));
  for (auto& x : a) x = c.pick(pts);
  for (auto& x : b) x = c.pick(pts);
  int e = 0;
  for (std::size_t i = 0; e == 0 && i < a.size() && i < b.size(); ++i) e = refv(a[i], b[i]);
  if (e == 0) e = a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
  NOTE("|a|=", a.size(), " |b|=", b.size(), " expected ", e);
  CHECK(vm::compare<T>(a.begin(), a.end(), b.begin(), b.end()) == e, "range compare, sizes ", a.size(), b.size(), " expected ", e);
  CHECK(vm::compare(b.begin(), b.end(), a.begin(), a.end(), T(0)) == -e, "range compare not antisymmetric");
  const std::list<vec<T, S>> la(a.begin(), a.end());
  CHECK(vm::compare<T>(la.begin(), la.end(), b.begin(), b.end()) == e, "range compare over different iterator types");
  c.op(3);
  std::vector<double> key;
  for (auto& x : a) key.push_back(&x - a.data()), key.push_back(x[0]), key.push_back(x[S - 1]);
  key.push_back(777);
  for (auto& x : b) key.push_back(x[0]), key.push_back(x[S - 1]);
  c.state(key);
}
MC_INSTANCE("ranges_d3", (ranges<double, 3>))
MC_INSTANCE("ranges_f2", (ranges<float, 2>))

// long sequences: equal except at one position, possibly a prefix
template <class T, std::size_t S> void ranges_long(Ctx& c) {
  const auto n = 1 + c.choose(40), m = 1 + c.choose(40);
  std::vector<vec<T, S>> a(n), b(m);
  for (std::size_t i = 0; i < n; ++i) a[i] = vec<T, S>::fill(T(i));
  for (std::size_t i = 0; i < m; ++i) b[i] = vec<T, S>::fill(T(i));
  const auto p = c.choose(n + 1);
  if (p < n) a[p][S - 1] += T(c.flag() ? 1 : -1);
  int e = 0;
  for (std::size_t i = 0; e == 0 && i < n && i < m; ++i) e = refv(a[i], b[i]);
  if (e == 0) e = n < m ? -1 : n > m ? 1 : 0;
  CHECK(vm::compare<T>(a.begin(), a.end(), b.begin(), b.end()) == e, "range compare, sizes ", n, m, " diff at ", p, " expected ", e);
  CHECK(vm::compare<T>(b.begin(), b.end(), a.begin(), a.end()) == -e, "range compare antisymmetry, sizes ", n, m);
  c.op(2);
  NOTE("n=", n, " m=", m, " p=", p);
  c.state(n, m, p, e);
}
MC_INSTANCE("ranges_long_d3", (ranges_long<double, 3>))
template <class T, std::size_t S> void ranges_huge(Ctx& c) {
  static const std::vector<int> N{60, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 5000, 65535, 65536, 65537, 70000};
  const int n = c.pick(N), m = n + c.range(-1, 1), at = c.range(0, 9);
  const int p = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 2 : at == 3 ? n - 1 : at == 4 ? n : at == 5 ? 63 : at == 6 ? 128 : at == 7 ? 256 : at == 8 ? 4999 : 65536;
  if (p > n) return c.skip();
  std::vector<vec<T, S>> a, b;
  for (int i = 0; i < n; ++i) a.push_back(vec<T, S>::fill(T(i % 7)));
  for (int i = 0; i < m; ++i) b.push_back(vec<T, S>::fill(T(i % 7)));
  int e = n < m ? -1 : n > m ? 1 : 0;
  const int s = c.flag() ? 1 : -1;
  const std::size_t k = c.choose(S);
  if (p < n) a[std::size_t(p)][k] += T(s);
  if (p < n && p < m) e = s;
  NOTE("n=", n, " m=", m, " p=", p);
  CHECK(vm::compare<T>(a.begin(), a.end(), b.begin(), b.end()) == e, "range compare, sizes ", n, m, " diff at ", p, " expected ", e);
  CHECK(vm::compare<T>(b.begin(), b.end(), a.begin(), a.end()) == -e, "range compare antisymmetry, sizes ", n, m);
  c.op(2);
  c.state(n, m, p, s, k);
}
MC_INSTANCE("ranges_huge_d3", (ranges_huge<double, 3>))
MC_INSTANCE("ranges_huge_f2", (ranges_huge<float, 2>))

// sequences compared with an epsilon: the first element that differs by more than the epsilon decides, then the length
template <class T, std::size_t S> void ranges_eps(Ctx& c) {
  const T e = T(0.25);
  static const std::vector<T> D{T(0), T(0.25), T(-0.25), T(0.5), T(-0.5)};
  const auto N = c.tiered(3u, 4u);
  const auto n = c.choose(N + 1), m = c.choose(N + 1);
  std::vector<vec<T, S>> a(n), b(m);
  for (std::size_t i = 0; i < n; ++i) a[i] = vec<T, S>::fill(T(i) - T(1));
  for (std::size_t i = 0; i < m; ++i) b[i] = vec<T, S>::fill(T(i) - T(1)), b[i][i % S] += c.pick(D), b[i][S - 1] += c.pick(D);
  int x = 0;
  for (std::size_t i = 0; x == 0 && i < n && i < m; ++i) x = refv(a[i], b[i], e);
  if (x == 0) x = n < m ? -1 : n > m ? 1 : 0;
  NOTE("a=", a, " b=", b);
  CHECK(vm::compare(a.begin(), a.end(), b.begin(), b.end(), e) == x, "range compare with epsilon, sizes ", n, m, " expected ", x);
  CHECK(vm::compare(b.begin(), b.end(), a.begin(), a.end(), e) == -x, "range compare with epsilon is not antisymmetric, sizes ", n, m);
  const std::list<vec<T, S>> la(a.begin(), a.end());
  CHECK(vm::compare(la.begin(), la.end(), b.begin(), b.end(), e) == x, "range compare with epsilon over different iterator types");
  c.op(3);
  c.state(a, b);
}
MC_INSTANCE("ranges_eps_d3", (ranges_eps<double, 3>))
MC_INSTANCE("ranges_eps_f2", (ranges_eps<float, 2>))
// integers with an epsilon
template <class T, std::size_t S> void epsilon_int(Ctx& c) {
  const T e = c.pick(std::vector<T>{0, 1, 2, 10});
  vec<T, S> a, b;
  for (std::size_t i = 0; i < S; ++i) a[i] = c.pick(std::vector<T>{0, 7, -100}), b[i] = a[i] + c.pick(std::vector<T>{0, 1, -1, 2, -2, 3, 10, -11, 100});
  NOTE("eps=", e, " a=", a, " b=", b);
  const int x = refv(a, b, e);
  CHECK(vm::compare(a, b, e) == x && vm::compare(b, a, e) == -x && vm::is_equal(a, b, e) == (x == 0), "integer comparison with epsilon ", e, " of ", a, b, " expected ", x);
  c.op(3);
  c.state(e, a, b);
}
MC_INSTANCE("epsilon_i2", (epsilon_int<int, 2>))
MC_INSTANCE("epsilon_l3", (epsilon_int<long, 3>))
// sizes up to 16: one differing position
template <class T, std::size_t S> void one_hot(Ctx& c) {
  static const auto rich = Alpha<T>::rich();
  vec<T, S> a, b;
  for (std::size_t i = 0; i < S; ++i) a[i] = b[i] = T(i % 3);
  const auto i = c.choose(S);
  a[i] = c.pick(rich), b[i] = c.pick(rich);
  const auto j = c.choose(S);
  if (j > i) b[j] += T(c.choose(3));
  NOTE("a=", a, " b=", b);
  check_ops(c, a, b);
  c.state(S, a, b);
}
MC_INSTANCE("one_hot_d7", (one_hot<double, 7>))
MC_INSTANCE("one_hot_d9", (one_hot<double, 9>))
MC_INSTANCE("one_hot_f12", (one_hot<float, 12>))
MC_INSTANCE("one_hot_d17", (one_hot<double, 17>))
// wide vectors with an epsilon: two positions differ
template <class T, std::size_t S> void wide_eps(Ctx& c) {
  const T e = c.pick(std::vector<T>{T(0), T(0.25), T(4)});
  const std::vector<T> off{T(0), e, -e, e + T(0.125), -e - T(0.125), e / 2, -e / 2};
  vec<T, S> a, b;
  for (std::size_t i = 0; i < S; ++i) a[i] = b[i] = T(i % 3) - T(1);
  const auto i = c.choose(S), j = c.choose(S);
  b[i] += c.pick(off);
  if (i != j) b[j] += c.pick(off);
  NOTE("eps=", e, " a=", a, " b=", b);
  const int x = refv(a, b, e);
  CHECK(vm::compare(a, b, e) == x && vm::compare(b, a, e) == -x, "compare(", a, ",", b, ", eps=", e, ") expected ", x);
  CHECK(vm::is_equal(a, b, e) == (x == 0) && vm::is_equal(b, a, e) == (x == 0), "is_equal(", a, ",", b, ", eps=", e, ") expected ", x == 0);
  c.op(4);
  c.state(S, e, a, b);
}
MC_INSTANCE("wide_eps_d5", (wide_eps<double, 5>))
MC_INSTANCE("wide_eps_f6", (wide_eps<float, 6>))
MC_INSTANCE("wide_eps_d8", (wide_eps<double, 8>))
MC_INSTANCE("wide_eps_d16", (wide_eps<double, 16>))
