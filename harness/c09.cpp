// C09  matrix algebra obeys the ring and module laws
// mc-flags: -O1 ubsan asan
// mc-assume: elements come from a lattice on which float arithmetic is exact, so the textbook value is compared exactly; special magnitudes are explored one or two at a time
#include "mc.hpp"
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
using mc::Ctx;
using mc::same;
using vm::mat;
using vm::vec;

static const std::vector<double> BASE{0, 1, -2};
static const std::vector<double> SPEC{-1, 3, 0.5, 7, -64, 1000};

// a matrix over a full small alphabet, or a fixed dense pattern with a bounded number of deviations
template <class T, std::size_t R, std::size_t C> mat<T, R, C> full(Ctx& c, const std::vector<double>& A = BASE) {
  mat<T, R, C> m = mat<T, R, C>::zero();
  for (std::size_t k = 0; k < C; ++k)
    for (std::size_t r = 0; r < R; ++r) m[k][r] = T(c.pick(A));
  return m;
}
template <class T, std::size_t R, std::size_t C> mat<T, R, C> pattern(Ctx& c, int seed) {
  mat<T, R, C> m = mat<T, R, C>::zero();
  const bool dense = c.flag();
  for (std::size_t k = 0; k < C; ++k)
    for (std::size_t r = 0; r < R; ++r) {
      const T def = dense ? T(int((k * 5 + r * 3 + std::size_t(seed) * 7) % 9) - 4) : T(0);
      const uint32_t d = c.dev(uint32_t(SPEC.size()) + 1);
      m[k][r] = d ? T(SPEC[d - 1]) : def;
    }
  return m;
}
template <class M> std::string show(const M& m) {
  std::ostringstream s;
  s.precision(9);
  for (std::size_t r = 0; r < M::rows; ++r) {
    s << (r ? " ; " : "{");
    for (std::size_t k = 0; k < M::cols; ++k) s << (k ? " " : "") << m[k][r];
  }
  s << "}";
  return s.str();
}
template <class T, std::size_t R, std::size_t C> bool eqm(const mat<T, R, C>& a, const mat<T, R, C>& b) {
  for (std::size_t k = 0; k < C; ++k)
    for (std::size_t r = 0; r < R; ++r)
      if (!same(a[k][r], b[k][r])) return false;
  return true;
}
template <class T, std::size_t R, std::size_t C> void st(Ctx& c, const mat<T, R, C>& a) {
  uint64_t h = R * 16 + C;
  for (std::size_t k = 0; k < C; ++k) Ctx::add(h, a[k]);
  c.state(h);
}

template <class T, std::size_t R, std::size_t K, std::size_t C> void check_product(Ctx& c, const mat<T, R, K>& a, const mat<T, K, C>& b) {
  const mat<T, R, C> p = a * b;
  for (std::size_t r = 0; r < R; ++r)
    for (std::size_t k = 0; k < C; ++k) {
      T s = T(0);
      for (std::size_t i = 0; i < K; ++i) s += a[i][r] * b[k][i];
      CHECK(p[k][r] == s, "product element row ", r, " col ", k, " of ", show(a), " * ", show(b), " is ", p[k][r], ", should be ", s);
    }
  // (AB)^T = B^T A^T
  const mat<T, C, R> pt = vm::transpose(p), tt = vm::transpose(b) * vm::transpose(a);
  CHECK(eqm(pt, tt), "(AB)^T != B^T A^T for ", show(a), " and ", show(b));
  c.op(4);
}
template <class T, std::size_t R, std::size_t C> void check_vectors(Ctx& c, const mat<T, R, C>& a, const vec<T, C>& x, const vec<T, R>& y) {
  const vec<T, R> ax = a * x;
  const vec<T, C> ya = y * a;
  for (std::size_t r = 0; r < R; ++r) {
    T s = T(0);
    for (std::size_t k = 0; k < C; ++k) s += a[k][r] * x[k];
    CHECK(ax[r] == s, "matrix * vector, row ", r, ": ", show(a), " * ", x, " -> ", ax);
  }
  for (std::size_t k = 0; k < C; ++k) {
    T s = T(0);
    for (std::size_t r = 0; r < R; ++r) s += y[r] * a[k][r];
    CHECK(ya[k] == s, "vector * matrix, column ", k, ": ", y, " * ", show(a), " -> ", ya);
  }
  // lists and arrays of vectors
  const std::vector<vec<T, C>> lx{x, x + x, vec<T, C>::fill(T(1))};
  const std::vector<vec<T, R>> lax = a * lx;
  CHECK(lax.size() == 3 && lax[0] == ax && lax[1] == a * lx[1] && lax[2] == a * lx[2], "matrix * list of vectors differs from the products with its elements");
  const std::vector<vec<T, R>> ly{y + y, y, vec<T, R>::fill(T(1))};
  const std::vector<vec<T, C>> lya = ly * a;
  CHECK(lya.size() == 3 && lya[1] == ya && lya[0] == ly[0] * a && lya[2] == ly[2] * a, "list of vectors * matrix differs from the products with its elements");
  const std::array<vec<T, C>, 2> ar{x, vec<T, C>::fill(T(1))};
  const std::array<vec<T, R>, 2> aax = a * ar;
  CHECK(aax[0] == ax && aax[1] == lax[2], "matrix * array of vectors");
  const std::array<vec<T, R>, 2> br{vec<T, R>::fill(T(1)), y};
  const std::array<vec<T, C>, 2> aya = br * a;
  CHECK(aya[0] == lya[2] && aya[1] == ya, "array of vectors * matrix");
  CHECK((a * std::vector<vec<T, C>>{}).empty() && (std::vector<vec<T, R>>{} * a).empty(), "product with an empty list");
  c.op(8);
}
template <class T, std::size_t R, std::size_t C> void check_one(Ctx& c, const mat<T, R, C>& a) {
  const mat<T, C, R> t = vm::transpose(a);
  for (std::size_t k = 0; k < C; ++k)
    for (std::size_t r = 0; r < R; ++r) CHECK(t[r][k] == a[k][r], "transpose of ", show(a), " is ", show(t));
  CHECK(eqm(vm::transpose(t), a), "double transpose of ", show(a));
  CHECK(eqm(a, a * mat<T, C, C>::identity()) && eqm(a, mat<T, R, R>::identity() * a), "identity is not neutral for ", show(a));
  const auto n = -a;
  const auto z = a - a;
  for (std::size_t k = 0; k < C; ++k)
    for (std::size_t r = 0; r < R; ++r) CHECK(n[k][r] == -a[k][r] && z[k][r] == T(0), "negation ", show(a));
  CHECK(eqm(+a, a), "unary plus ", show(a));
  for (const T s : {T(0), T(1), T(-3), T(0.5)}) {
    const auto m1 = a * s, m2 = s * a;
    for (std::size_t k = 0; k < C; ++k)
      for (std::size_t r = 0; r < R; ++r) CHECK(m1[k][r] == a[k][r] * s && m2[k][r] == a[k][r] * s, "scalar product ", s, " ", show(a));
    if (s != T(0)) {
      const auto d = a / s;
      for (std::size_t k = 0; k < C; ++k)
        for (std::size_t r = 0; r < R; ++r) CHECK(mc::close(d[k][r], a[k][r] / s, 2 * std::numeric_limits<T>::epsilon(), 0), "scalar quotient ", s, " ", show(a));
    }
  }
  {  // quotients and products of very small and very large operands
    const T tiny = std::numeric_limits<T>::min() / 64, huge = std::numeric_limits<T>::max() / 64;
    const auto q = (a * tiny) / tiny, p = (a * huge) / huge, u = (a / huge) * huge;
    for (std::size_t k = 0; k < C; ++k)
      for (std::size_t r = 0; r < R; ++r) {
        if (std::fabs((long double)a[k][r]) > 32) continue;
        CHECK(std::fabs((long double)q[k][r] - a[k][r]) <= 1e-4L, "(a * tiny) / tiny of ", show(a), " is ", show(q));
        CHECK(mc::close(p[k][r], a[k][r], 4 * std::numeric_limits<T>::epsilon()), "(a * huge) / huge of ", show(a), " is ", show(p));
        CHECK(std::fabs((long double)u[k][r] - a[k][r]) <= 1e-4L, "(a / huge) * huge of ", show(a), " is ", show(u));
      }
  }
  // set
  for (std::size_t k = 0; k < C; ++k)
    for (std::size_t r = 0; r < R; ++r) {
      const auto m = vm::set(a, r, k, T(77));
      for (std::size_t kk = 0; kk < C; ++kk)
        for (std::size_t rr = 0; rr < R; ++rr) CHECK(m[kk][rr] == (kk == k && rr == r ? T(77) : a[kk][rr]), "set(", r, ",", k, ") ", show(m));
      const auto one = vm::slice<1, 1>(a, r, k);
      CHECK(one[0][0] == a[k][r], "slice<1,1> at ", r, ",", k, " of ", show(a));
      if constexpr (R > 1 && C > 1) {
        const auto mi = vm::extract_minor(a, r, k);
        for (std::size_t kk = 0; kk + 1 < C; ++kk)
          for (std::size_t rr = 0; rr + 1 < R; ++rr) CHECK(mi[kk][rr] == a[kk + (kk >= k)][rr + (rr >= r)], "minor ", r, ",", k, " of ", show(a), " is ", show(mi));
      }
    }
  if constexpr (R > 1) {
    for (std::size_t o = 0; o < 2; ++o) {
      const auto s = vm::slice<R - 1, C>(a, o, 0);
      for (std::size_t k = 0; k < C; ++k)
        for (std::size_t r = 0; r + 1 < R; ++r) CHECK(s[k][r] == a[k][r + o], "row slice of ", show(a));
    }
  }
  if constexpr (C > 1) {
    for (std::size_t o = 0; o < 2; ++o) {
      const auto s = vm::slice<R, C - 1>(a, 0, o);
      for (std::size_t k = 0; k + 1 < C; ++k)
        for (std::size_t r = 0; r < R; ++r) CHECK(s[k][r] == a[k + o][r], "column slice of ", show(a));
    }
  }
  const mat<float, R, C> f(a);
  const mat<int, R, C> in(a);
  for (std::size_t k = 0; k < C; ++k)
    for (std::size_t r = 0; r < R; ++r) CHECK(f[k][r] == float(a[k][r]) && in[k][r] == int(a[k][r]), "conversion of ", show(a));
  CHECK(vm::is_zero(a, T(0.25)) == [&] {
    for (std::size_t k = 0; k < C; ++k)
      for (std::size_t r = 0; r < R; ++r)
        if (a[k][r] != T(0)) return false;
    return true;
  }(), "is_zero ", show(a));
  c.op(20);
}

template <class T, std::size_t R, std::size_t C> void shape(Ctx& c) {
  const auto a = pattern<T, R, C>(c, 1);
  NOTE("A=", show(a));
  check_one(c, a);
  vec<T, C> x;
  vec<T, R> y;
  for (std::size_t i = 0; i < C; ++i) x[i] = T(int(i * 3 % 5) - 1);
  for (std::size_t i = 0; i < R; ++i) y[i] = T(int(i * 2 % 7) - 2);
  check_vectors(c, a, x, y);
  const std::size_t e = c.choose(R + C);
  x = vec<T, C>(), y = vec<T, R>();
  if (e < C) x[e] = T(1), y[0] = T(2);
  else y[e - C] = T(1), x[0] = T(2);
  check_vectors(c, a, x, y);
  // module laws with a second matrix
  mat<T, R, C> b = mat<T, R, C>::fill(T(3));
  b[C - 1][R - 1] = T(-5);
  const auto s = a + b, d = a - b;
  for (std::size_t k = 0; k < C; ++k)
    for (std::size_t r = 0; r < R; ++r) CHECK(s[k][r] == a[k][r] + b[k][r] && d[k][r] == a[k][r] - b[k][r], "sum/difference element ", r, ",", k, " of ", show(a), " ", show(b));
  CHECK(s * x == a * x + b * x && y * s == y * a + y * b, "distributivity over vectors ", show(a));
  CHECK(eqm(s * T(-2), a * T(-2) + b * T(-2)), "distributivity over scalars ", show(a));
  st(c, a);
}
#define SH(R, C) MC_INSTANCE("shape_d" #R #C, (shape<double, R, C>), 2, 3)
SH(1, 1) SH(1, 2) SH(1, 4) SH(2, 1) SH(2, 2) SH(2, 3) SH(3, 2) SH(3, 3) SH(3, 4) SH(4, 3) SH(4, 1) SH(4, 4) SH(2, 5) SH(5, 2)
MC_INSTANCE("shape_d55", (shape<double, 5, 5>), 1, 1)
MC_INSTANCE("shape_f44", (shape<float, 4, 4>), 2, 2)
MC_INSTANCE("shape_f34", (shape<float, 3, 4>), 1, 2)
MC_INSTANCE("shape_f33", (shape<float, 3, 3>), 1, 2)

template <class T, std::size_t R, std::size_t K, std::size_t C> void product(Ctx& c) {
  const auto a = pattern<T, R, K>(c, 2);
  const auto b = pattern<T, K, C>(c, 5);
  NOTE("A=", show(a), " B=", show(b));
  check_product(c, a, b);
  // associativity with vectors
  vec<T, C> x;
  vec<T, R> y;
  for (std::size_t i = 0; i < C; ++i) x[i] = T(int(i) - 1);
  for (std::size_t i = 0; i < R; ++i) y[i] = T(2 - int(i));
  CHECK((a * b) * x == a * (b * x), "(AB)x != A(Bx) for ", show(a), " and ", show(b));
  CHECK(y * (a * b) == (y * a) * b, "y(AB) != (yA)B for ", show(a), " and ", show(b));
  st(c, a);
  st(c, b);
}
#define PR(R, K, C) MC_INSTANCE("product_d" #R #K #C, (product<double, R, K, C>), 2, 3)
PR(1, 1, 1) PR(1, 2, 1) PR(2, 1, 2) PR(2, 2, 2) PR(2, 3, 2) PR(3, 2, 4) PR(3, 3, 3) PR(1, 4, 3) PR(4, 3, 2) PR(4, 4, 1) PR(4, 2, 4) PR(2, 4, 3)
MC_INSTANCE("product_d444", (product<double, 4, 4, 4>), 2, 3)
MC_INSTANCE("product_f444", (product<float, 4, 4, 4>), 2, 3)
MC_INSTANCE("product_f333", (product<float, 3, 3, 3>), 2, 3)
MC_INSTANCE("product_d555", (product<double, 5, 5, 5>), 1, 2)

// complete enumeration of small square matrices: ring laws
template <class T> void ring2(Ctx& c) {
  static const std::vector<double> A{0, 1, -2};
  const auto a = full<T, 2, 2>(c, A), b = full<T, 2, 2>(c, A);
  NOTE("A=", show(a), " B=", show(b));
  check_product(c, a, b);
  mat<T, 2, 2> d(T(2), T(-1), T(0), T(3));
  CHECK(eqm((a * b) * d, a * (b * d)), "associativity ", show(a), show(b));
  CHECK(eqm((a + b) * d, a * d + b * d) && eqm(d * (a + b), d * a + d * b), "distributivity ", show(a), show(b));
  CHECK(eqm(a + b, b + a) && eqm((a + b) - b, a), "addition ", show(a), show(b));
  // comparison
  const int cmp = vm::compare(a, b);
  int want = 0;
  for (std::size_t k = 0; k < 2 && !want; ++k)
    for (std::size_t r = 0; r < 2 && !want; ++r) want = a[k][r] < b[k][r] ? -1 : a[k][r] > b[k][r] ? 1 : 0;
  CHECK((cmp > 0) - (cmp < 0) == want, "compare ", show(a), show(b));
  CHECK((a == b) == (want == 0) && (a != b) == (want != 0), "equality ", show(a), show(b));
  const T eps = T(1.5);
  bool within = true;
  for (std::size_t k = 0; k < 2; ++k)
    for (std::size_t r = 0; r < 2; ++r) within = within && std::fabs(a[k][r] - b[k][r]) <= eps;
  CHECK(vm::is_equal(a, b, eps) == within, "is_equal with epsilon ", show(a), show(b));
  CHECK(vm::is_zero(a, T(1.5)) == (std::fabs(a[0][0]) <= 1.5 && std::fabs(a[0][1]) <= 1.5 && std::fabs(a[1][0]) <= 1.5 && std::fabs(a[1][1]) <= 1.5), "is_zero with epsilon ", show(a));
  c.op(12);
  st(c, a);
}
MC_INSTANCE("ring2_d", (ring2<double>))
MC_INSTANCE("ring2_f", (ring2<float>))

// equality of larger matrices: single differing element anywhere
template <class T, std::size_t R, std::size_t C> void equality(Ctx& c) {
  auto a = pattern<T, R, C>(c, 3);
  const std::size_t r = c.choose(R), k = c.choose(C);
  static const std::vector<double> D{0, 1, -1, 1e-5, -1e-5};
  const T d = T(c.pick(D));
  auto b = a;
  b[k][r] += d;
  const bool eq = b[k][r] == a[k][r];
  CHECK((a == b) == eq && (a != b) == !eq && (vm::compare(a, b) == 0) == eq, "equality with a difference of ", d, " at ", r, ",", k, ": ", show(a));
  if (!eq) CHECK((vm::compare(a, b) < 0) == (a[k][r] < b[k][r]) && (vm::compare(b, a) > 0) == (a[k][r] < b[k][r]), "order with a difference of ", d, " at ", r, ",", k, ": ", show(a));
  CHECK(vm::is_equal(a, b, T(0.01)) == (std::fabs(d) < 0.01), "is_equal with a difference of ", d, " at ", r, ",", k);
  c.op(6);
  st(c, b);
}
MC_INSTANCE("equality_d44", (equality<double, 4, 4>), 0, 1)
MC_INSTANCE("equality_f33", (equality<float, 3, 3>), 1, 1)
MC_INSTANCE("equality_d24", (equality<double, 2, 4>), 1, 1)

// construction in reading order, constants
template <class T> void construct(Ctx& c) {
  const std::size_t hot = c.choose(16);
  T e[16];
  for (std::size_t i = 0; i < 16; ++i) e[i] = T(int(i)) + (i == hot ? T(100) : T(0));
  const mat<T, 4, 4> a(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]);
  const mat<T, 4, 4> b{e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]};
  for (std::size_t r = 0; r < 4; ++r)
    for (std::size_t k = 0; k < 4; ++k) CHECK(a[k][r] == e[r * 4 + k] && b[k][r] == e[r * 4 + k], "4x4 construction: row ", r, " col ", k);
  const mat<T, 2, 4> w(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]);
  const mat<T, 4, 2> h(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]);
  const mat<T, 2, 4> wl{e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]};
  const mat<T, 4, 2> hl{e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]};
  for (std::size_t r = 0; r < 2; ++r)
    for (std::size_t k = 0; k < 4; ++k) CHECK(w[k][r] == e[r * 4 + k] && wl[k][r] == e[r * 4 + k], "2x4 construction: row ", r, " col ", k);
  for (std::size_t r = 0; r < 4; ++r)
    for (std::size_t k = 0; k < 2; ++k) CHECK(h[k][r] == e[r * 2 + k] && hl[k][r] == e[r * 2 + k], "4x2 construction: row ", r, " col ", k);
  mat<T, 4, 4> q = a;
  q[hot % 4][hot / 4] = T(-1);
  for (std::size_t r = 0; r < 4; ++r)
    for (std::size_t k = 0; k < 4; ++k) CHECK(q[k][r] == (r * 4 + k == hot ? T(-1) : a[k][r]), "element write");
  const auto I = mat<T, 4, 4>::identity(), Z = mat<T, 4, 4>::zero(), F = mat<T, 4, 4>::fill(T(5)), D = mat<T, 4, 4>();
  const auto N = mat<T, 2, 3>();
  for (std::size_t r = 0; r < 4; ++r)
    for (std::size_t k = 0; k < 4; ++k) {
      CHECK(I[k][r] == T(r == k) && D[k][r] == T(r == k) && Z[k][r] == T(0) && F[k][r] == T(5), "constant matrices");
      if (r < 2 && k < 3) CHECK(N[k][r] == T(r == k), "default non-square");
      CHECK((mat<T, 4, 4>::template zero_out<0>()[k][r] == T(r == k && r != 0)) && (mat<T, 4, 4>::template zero_out<1>()[k][r] == T(r == k && r != 1)) && (mat<T, 4, 4>::template zero_out<2>()[k][r] == T(r == k && r != 2)) && (mat<T, 4, 4>::template zero_out<3>()[k][r] == T(r == k && r != 3)), "zero_out");
    }
  for (std::size_t r = 0; r < 2; ++r)
    for (std::size_t k = 0; k < 2; ++k)
      for (std::size_t orow = 0; orow < 3; ++orow)
        for (std::size_t ocol = 0; ocol < 3; ++ocol) CHECK((vm::slice<2, 2>(a, orow, ocol)[k][r] == a[k + ocol][r + orow]), "slice<2,2>");
  c.op(20);
  c.state(hot);
}
MC_INSTANCE("construct_d", (construct<double>))
MC_INSTANCE("construct_f", (construct<float>))
MC_INSTANCE("construct_i", (construct<int>))

// --- larger shapes, integer elements, long lists, wide magnitudes ---------------------------------------
template <class T, std::size_t R, std::size_t K, std::size_t C> void big_product(Ctx& c) {
  // one hot element in each factor over a dense or empty background, so that every term of every sum is seen
  static const std::vector<int> H{1, -3, 64};
  const bool dense = c.flag();
  const std::size_t i = c.choose(uint32_t(R * K)), j = c.choose(uint32_t(K * C));
  const T h = T(c.pick(H));
  mat<T, R, K> a = mat<T, R, K>::zero();
  mat<T, K, C> b = mat<T, K, C>::zero();
  if (dense) {
    for (std::size_t k = 0; k < K; ++k)
      for (std::size_t r = 0; r < R; ++r) a[k][r] = T(int((k * 5 + r * 3) % 7) - 3);
    for (std::size_t k = 0; k < C; ++k)
      for (std::size_t r = 0; r < K; ++r) b[k][r] = T(int((k * 2 + r * 3) % 5) - 2);
  }
  a[i % K][i / K] = h;
  b[j % C][j / C] = T(5);
  NOTE("A=", show(a), " B=", show(b));
  check_product(c, a, b);
  c.state(i, j, h, dense);
}
#define BP(T, R, K, C) MC_INSTANCE("big_" #T #R #K #C, (big_product<T, R, K, C>))
BP(double, 6, 6, 6) BP(double, 1, 8, 1) BP(double, 8, 1, 8) BP(float, 7, 2, 3) BP(double, 2, 7, 5) BP(int, 3, 3, 3) BP(int, 4, 4, 4) BP(int, 2, 5, 3) BP(float, 3, 4, 4) BP(float, 4, 4, 3)

// lists of vectors of every length, with a marked element at every position
template <class T, std::size_t R, std::size_t C> void lists(Ctx& c) {
  const int n = c.range(0, c.tiered(40, 120));
  const int hot = n ? c.range(0, n - 1) : 0;
  mat<T, R, C> a = mat<T, R, C>::zero();
  for (std::size_t k = 0; k < C; ++k)
    for (std::size_t r = 0; r < R; ++r) a[k][r] = T(int((k * 5 + r * 3) % 7) - 3);
  std::vector<vec<T, C>> x;
  std::vector<vec<T, R>> y;
  for (int i = 0; i < n; ++i) {
    vec<T, C> p;
    vec<T, R> q;
    for (std::size_t k = 0; k < C; ++k) p[k] = T((i * 3 + int(k)) % 11 - 5) + (i == hot ? T(100) : T(0));
    for (std::size_t k = 0; k < R; ++k) q[k] = T((i * 2 + int(k) * 3) % 13 - 6) + (i == hot ? T(-50) : T(0));
    x.push_back(p), y.push_back(q);
  }
  const auto ax = a * x;
  const auto ya = y * a;
  CHECK(ax.size() == x.size() && ya.size() == y.size(), "products of lists of ", n, " vectors have ", ax.size(), " and ", ya.size());
  for (std::size_t i = 0; i < x.size(); ++i) {
    for (std::size_t r = 0; r < R; ++r) {
      T s = T(0);
      for (std::size_t k = 0; k < C; ++k) s += a[k][r] * x[i][k];
      CHECK(ax[i][r] == s, "element ", i, " of ", n, " of matrix * list is ", ax[i]);
    }
    for (std::size_t k = 0; k < C; ++k) {
      T s = T(0);
      for (std::size_t r = 0; r < R; ++r) s += y[i][r] * a[k][r];
      CHECK(ya[i][k] == s, "element ", i, " of ", n, " of list * matrix is ", ya[i]);
    }
  }
  c.op(2);
  c.state(n, hot);
}
MC_INSTANCE("lists_d44", (lists<double, 4, 4>))
MC_INSTANCE("lists_d33", (lists<double, 3, 3>))
MC_INSTANCE("lists_f23", (lists<float, 2, 3>))
MC_INSTANCE("lists_d41", (lists<double, 4, 1>))

// arrays of several lengths
template <class T, std::size_t N> void arrays(Ctx& c) {
  const std::size_t hot = c.choose(N), comp = c.choose(3);
  const mat<T, 3, 3> a(T(1), T(2), T(-3), T(0), T(5), T(7), T(-2), T(4), T(6));
  const mat<T, 4, 4> m4(T(1), T(2), T(-3), T(9), T(0), T(5), T(7), T(-8), T(-2), T(4), T(6), T(3), T(0), T(0), T(0), T(1));
  std::array<vec<T, 3>, N> x;
  for (std::size_t i = 0; i < N; ++i)
    for (std::size_t k = 0; k < 3; ++k) x[i][k] = T(int((i * 3 + k * 2) % 7) - 3);
  x[hot][comp] = T(64);
  const std::array<vec<T, 3>, N> l = a * x, r = x * a;
  const std::array<vec<T, 3>, N> l4 = m4 * x, r4 = x * m4;
  const std::vector<vec<T, 3>> v4 = m4 * std::vector<vec<T, 3>>(x.begin(), x.end());
  for (std::size_t i = 0; i < N; ++i) {
    CHECK(l[i] == a * x[i] && r[i] == x[i] * a, "element ", i, " of ", N);
    T w = T(1);
    for (std::size_t k = 0; k < 3; ++k) w += m4[3][k] * x[i][k];
    for (std::size_t cc = 0; w != T(0) && cc < 3; ++cc) {
      T s = m4[cc][3];
      for (std::size_t k = 0; k < 3; ++k) s += m4[cc][k] * x[i][k];
      CHECK(r4[i][cc] == s / w, "row vector ", i, " of ", N, " transformed is ", r4[i], ", component ", cc, " should be ", s / w);
    }
    for (std::size_t rr = 0; rr < 3; ++rr) {
      T s = m4[3][rr];
      for (std::size_t k = 0; k < 3; ++k) s += m4[k][rr] * x[i][k];
      CHECK(l4[i][rr] == s && v4[i][rr] == s, "point ", i, " of ", N, " transformed is ", l4[i], " and ", v4[i]);
    }
  }
  c.op(4);
  c.state(hot, comp);
}
MC_INSTANCE("arrays_1", (arrays<double, 1>))
MC_INSTANCE("arrays_3", (arrays<double, 3>))
MC_INSTANCE("arrays_8", (arrays<float, 8>))
MC_INSTANCE("arrays_17", (arrays<double, 17>))

// comparison with an epsilon and order of larger matrices: two elements differ, the first beyond the epsilon decides
template <class T, std::size_t R, std::size_t C> void order(Ctx& c) {
  static const std::vector<double> D{0, 0.25, -0.25, 0.5, -0.5, 4, -4};
  static const std::vector<double> E{0, 0.25, 1};
  const std::size_t i = c.choose(uint32_t(R * C)), j = c.choose(uint32_t(R * C));
  const T di = T(c.pick(D)), dj = T(c.pick(D)), e = T(c.pick(E));
  if (j <= i && !(j == i && dj == T(0))) return c.skip();
  mat<T, R, C> a = mat<T, R, C>::zero();
  for (std::size_t k = 0; k < C; ++k)
    for (std::size_t r = 0; r < R; ++r) a[k][r] = T(int((k * 5 + r * 3) % 7) - 3);
  auto b = a;
  b[i / R][i % R] += di; // i, j count columns first
  b[j / R][j % R] += dj;
  int want = 0, exact = 0;
  bool eq = true;
  for (std::size_t k = 0; k < C; ++k)
    for (std::size_t r = 0; r < R; ++r) {
      const T d = a[k][r] - b[k][r];
      if (!want && std::fabs(d) > e) want = d < T(0) ? -1 : 1;
      if (!exact && d != T(0)) exact = d < T(0) ? -1 : 1;
      eq = eq && std::fabs(d) <= e;
    }
  const int g = vm::compare(a, b, e), h = vm::compare(b, a, e), x = vm::compare(a, b);
  NOTE("A=", show(a), " B=", show(b), " epsilon ", e);
  CHECK((g > 0) - (g < 0) == want && (h > 0) - (h < 0) == -want, "compare with epsilon is ", g, " and ", h, ", should be ", want);
  CHECK((x > 0) - (x < 0) == exact, "compare is ", x, ", should be ", exact);
  CHECK((a == b) == (exact == 0) && (a != b) == (exact != 0) && vm::is_equal(a, b, e) == eq, "equality");
  c.op(6);
  c.state(i, j, di, dj, e);
}
MC_INSTANCE("order_d44", (order<double, 4, 4>))
MC_INSTANCE("order_f33", (order<float, 3, 3>))
MC_INSTANCE("order_d24", (order<double, 2, 4>))
MC_INSTANCE("order_d42", (order<double, 4, 2>))
MC_INSTANCE("order_d15", (order<double, 1, 5>))

// equality is exact: a difference in the last place of a single element counts
template <class T, std::size_t R, std::size_t C> void last_place(Ctx& c) {
  static const std::vector<T> A{T(0), T(1), T(-0.6), T(1e-6), T(4096), T(-1e12)};
  mat<T, R, C> a;
  for (std::size_t k = 0; k < C; ++k)
    for (std::size_t r = 0; r < R; ++r) a[k][r] = T(k * R + r) / T(3);
  const std::size_t k = c.choose(C), r = c.choose(R);
  a[k][r] = c.pick(A);
  auto b = a;
  const T to = c.flag() ? T(1e19) : T(-1e19);
  const int steps = c.pick(std::vector<int>{0, 1, 2, 1000});
  for (int i = 0; i < steps; ++i) b[k][r] = std::nextafter(b[k][r], to);
  NOTE("A=", show(a), " B=", show(b));
  const bool same = steps == 0;
  CHECK((a == b) == same && (b == a) == same && (a != b) == !same && (b != a) == !same && vm::is_equal(a, b, T(0)) == same, "equality");
  const int w = same ? 0 : to > 0 ? -1 : 1, g = vm::compare(a, b), h = vm::compare(b, a);
  CHECK((g > 0) - (g < 0) == w && (h > 0) - (h < 0) == -w, "order is ", g, " and ", h, ", should be ", w);
  c.op(7);
  st(c, b);
}
MC_INSTANCE("last_place_d22", (last_place<double, 2, 2>))
MC_INSTANCE("last_place_d23", (last_place<double, 2, 3>))
MC_INSTANCE("last_place_d32", (last_place<double, 3, 2>))
MC_INSTANCE("last_place_f33", (last_place<float, 3, 3>))
MC_INSTANCE("last_place_d44", (last_place<double, 4, 4>))

// every shape up to 6x6: constants, construction from arguments and lists, conversion and the elementwise operations
// on values that use every digit of T; each result is one rounding away from its operands, so it is compared exactly
template <class T, std::size_t R, std::size_t C, std::size_t... I>
void every_shape_(Ctx& c, std::index_sequence<I...>) {
  static const std::vector<double> W{1, -3, 1e-9, 16777217};
  const T w = T(c.pick(W));
  const T e[R * C]{(T(1) / T(3) + T(int(I))) * w...};
  const mat<T, R, C> a(e[I]...);
  const mat<T, R, C> b{e[I]...};
  const mat<T, R, C> D, Z = mat<T, R, C>::zero(), I_ = mat<T, R, C>::identity(), F = mat<T, R, C>::fill(e[R * C - 1]);
  const mat<double, R, C> dbl(a);
  const mat<float, R, C> flt(a);
  const mat<T, R, C> ints(static_cast<int>(I)...);
  const T s = T(c.pick(std::vector<double>{1.1, -0.3, 7}));
  const auto n = -a, p = a + F, m = a - F, as = a * s, sa = s * a;
  const auto t = vm::transpose(a);
  for (std::size_t r = 0; r < R; ++r)
    for (std::size_t k = 0; k < C; ++k) {
      const T x = e[r * C + k], l = e[R * C - 1];
      CHECK(D[k][r] == T(r == k) && I_[k][r] == T(r == k), "default matrix ", R, "x", C, " has ", D[k][r], " in row ", r, " column ", k);
      CHECK(Z[k][r] == T(0) && F[k][r] == l, "constant matrix ", R, "x", C, " row ", r, " column ", k);
      CHECK(a[k][r] == x && b[k][r] == x, "construction of ", R, "x", C, ": row ", r, " column ", k, " is ", a[k][r], " and ", b[k][r]);
      CHECK(ints[k][r] == T(int(r * C + k)), "construction of ", R, "x", C, " from ints: row ", r, " column ", k);
      CHECK(dbl[k][r] == double(x) && flt[k][r] == float(x), "conversion of ", R, "x", C, ": row ", r, " column ", k);
      const volatile T vp = x + l, vm_ = x - l, vs = x * s;
      CHECK((+a)[k][r] == x && n[k][r] == -x && p[k][r] == vp && m[k][r] == vm_ && as[k][r] == vs && sa[k][r] == vs && t[r][k] == x, "elementwise operation on ", R, "x", C, ": row ", r, " column ", k);
      CHECK(mc::close((a / s)[k][r], x / s, 4 * std::numeric_limits<T>::epsilon(), 0), "quotient of ", R, "x", C, ": row ", r, " column ", k);
    }
  c.op(14);
  st(c, a);
}
template <class T, std::size_t R, std::size_t C> void every_shape(Ctx& c) { every_shape_<T, R, C>(c, std::make_index_sequence<R * C>()); }
#define ES(R, C) MC_INSTANCE("every_shape_" #R #C, (every_shape<double, R, C>))
#define ESR(R) ES(R, 1) ES(R, 2) ES(R, 3) ES(R, 4) ES(R, 5) ES(R, 6)
ESR(2) ESR(3) ESR(4) ESR(5) ESR(6) ES(1, 2) ES(1, 3) ES(1, 4) ES(1, 5) ES(1, 6)
MC_INSTANCE("every_shape_f44", (every_shape<float, 4, 4>))
MC_INSTANCE("every_shape_f25", (every_shape<float, 2, 5>))
MC_INSTANCE("every_shape_f33", (every_shape<float, 3, 3>))

// products, transformed vectors, minors and slices of values that use every digit of T: within a few roundings of the sum
template <class T, std::size_t R, std::size_t K, std::size_t C> void digits(Ctx& c) {
  static const std::vector<double> W{1, -1e-7, 3e8};
  const T wa = T(c.pick(W)), wb = T(c.pick(W));
  const int shift = c.range(0, 6);
  mat<T, R, K> a;
  mat<T, K, C> b;
  for (std::size_t k = 0; k < K; ++k)
    for (std::size_t r = 0; r < R; ++r) a[k][r] = wa * (T(int(k * 5 + r * 3 + std::size_t(shift)) % 7) - T(3.3));
  for (std::size_t k = 0; k < C; ++k)
    for (std::size_t r = 0; r < K; ++r) b[k][r] = wb * (T(int(k * 2 + r * 3 + std::size_t(shift)) % 5) - T(1.9));
  const auto near = [&](const T got, const long double want, const long double mag) { return std::fabs(got - want) <= 2 * (K + 1) * std::numeric_limits<T>::epsilon() * mag; };
  const auto p = a * b;
  for (std::size_t r = 0; r < R; ++r)
    for (std::size_t k = 0; k < C; ++k) {
      long double s = 0, g = 0;
      for (std::size_t i = 0; i < K; ++i) s += (long double)a[i][r] * b[k][i], g += std::fabs((long double)a[i][r] * b[k][i]);
      CHECK(near(p[k][r], s, g), "product element row ", r, " col ", k, " of ", show(a), " * ", show(b), " is ", p[k][r], ", should be ", double(s));
      CHECK(near((a * b[k])[r], s, g) && near((vm::slice<1, K>(a, r, 0) * b[k])[0], s, g), "matrix * vector ", show(a), " * ", b[k]);
      vec<T, K> row;
      for (std::size_t i = 0; i < K; ++i) row[i] = a[i][r];
      CHECK(near((row * b)[k], s, g), "vector * matrix ", row, " * ", show(b));
    }
  // lists and arrays agree with the products of their elements
  std::array<vec<T, K>, C> xs;
  std::array<vec<T, K>, R> ys;
  for (std::size_t k = 0; k < C; ++k) xs[k] = b[k];
  for (std::size_t r = 0; r < R; ++r)
    for (std::size_t i = 0; i < K; ++i) ys[r][i] = a[i][r];
  const auto axs = a * xs;
  const auto ysb = ys * b;
  const auto axl = a * std::vector<vec<T, K>>(xs.begin(), xs.end());
  const auto ysl = std::vector<vec<T, K>>(ys.begin(), ys.end()) * b;
  for (std::size_t k = 0; k < C; ++k) CHECK(axs[k] == a * xs[k] && axl[k] == a * xs[k], "matrix * array or list, element ", k);
  for (std::size_t r = 0; r < R; ++r) CHECK(ysb[r] == ys[r] * b && ysl[r] == ys[r] * b, "array or list * matrix, element ", r);
  if constexpr (R > 1 && K > 1)
    for (std::size_t r = 0; r < R; ++r)
      for (std::size_t k = 0; k < K; ++k) {
        const auto mi = vm::extract_minor(a, r, k);
        for (std::size_t kk = 0; kk + 1 < K; ++kk)
          for (std::size_t rr = 0; rr + 1 < R; ++rr) CHECK(mi[kk][rr] == a[kk + (kk >= k)][rr + (rr >= r)], "minor ", r, ",", k, " of ", show(a));
        const auto st_ = vm::set(a, r, k, wb / T(3));
        for (std::size_t kk = 0; kk < K; ++kk)
          for (std::size_t rr = 0; rr < R; ++rr) CHECK(st_[kk][rr] == (kk == k && rr == r ? wb / T(3) : a[kk][rr]), "set ", r, ",", k, " of ", show(a));
      }
  c.op(8);
  st(c, p);
}
#define DG(R, K, C) MC_INSTANCE("digits_" #R #K #C, (digits<double, R, K, C>))
DG(1, 1, 1) DG(2, 2, 2) DG(3, 3, 3) DG(4, 4, 4) DG(5, 5, 5) DG(6, 6, 6) DG(2, 3, 4) DG(4, 3, 2) DG(3, 4, 3) DG(1, 4, 2) DG(4, 1, 4)
MC_INSTANCE("digits_f444", (digits<float, 4, 4, 4>))
MC_INSTANCE("digits_f333", (digits<float, 3, 3, 3>))
