// C10  determinants, inverses and linear solves are correct or refused
// mc-flags: -O2 ubsan
// mc-assume: matrices have lattice elements, so a determinant is either exactly zero or well away from it; the tolerance of a solution follows the size of the exact inverse
#include "mc.hpp"
#include <vecmath/mat.h>
#include <algorithm>
#include <numeric>
using mc::Ctx;
using vm::mat;
using vm::vec;

template <std::size_t S> using IM = std::array<std::array<long long, S>, S>; // [row][col]
template <std::size_t S> long long leibniz(const IM<S>& m) {
  if constexpr (S <= 4) {
    std::array<int, S> p;
    std::iota(p.begin(), p.end(), 0);
    long long sum = 0;
    do {
      long long t = 1;
      int inv = 0;
      for (std::size_t i = 0; i < S; ++i) {
        t *= m[i][p[i]];
        for (std::size_t j = i + 1; j < S; ++j) inv += p[i] > p[j];
      }
      sum += inv % 2 ? -t : t;
    } while (std::next_permutation(p.begin(), p.end()));
    return sum;
  } else { // fraction-free elimination (Bareiss), exact
    auto a = m;
    __int128 prev = 1;
    int sign = 1;
    for (std::size_t k = 0; k + 1 < S; ++k) {
      if (a[k][k] == 0) {
        std::size_t s = k + 1;
        while (s < S && a[s][k] == 0) ++s;
        if (s == S) return 0;
        std::swap(a[k], a[s]);
        sign = -sign;
      }
      for (std::size_t i = k + 1; i < S; ++i)
        for (std::size_t j = k + 1; j < S; ++j) a[i][j] = (long long)(((__int128)a[i][j] * a[k][k] - (__int128)a[i][k] * a[k][j]) / prev);
      prev = a[k][k];
    }
    return sign * a[S - 1][S - 1];
  }
}
template <std::size_t S> IM<S - 1> minor(const IM<S>& m, std::size_t r, std::size_t k) {
  IM<S - 1> o{};
  for (std::size_t i = 0; i + 1 < S; ++i)
    for (std::size_t j = 0; j + 1 < S; ++j) o[i][j] = m[i + (i >= r)][j + (j >= k)];
  return o;
}
template <std::size_t S> std::string show(const IM<S>& m) {
  std::ostringstream s;
  for (std::size_t r = 0; r < S; ++r)
    for (std::size_t k = 0; k < S; ++k) s << (k ? " " : r ? " ; " : "") << m[r][k];
  return "{" + s.str() + "}";
}

template <class T, std::size_t S> void check_all(Ctx& c, const IM<S>& m, T scale) {
  mat<T, S, S> a;
  for (std::size_t r = 0; r < S; ++r)
    for (std::size_t k = 0; k < S; ++k) a[k][r] = T(m[r][k]) * scale;
  NOTE("M=", show(m), " scale=", scale);
  const long double det = leibniz(m);
  long double mag = 1; // Hadamard bound: rounding of the determinant is relative to this
  for (std::size_t r = 0; r < S; ++r) {
    long double n = 0;
    for (std::size_t k = 0; k < S; ++k) n += (long double)m[r][k] * m[r][k];
    mag *= std::sqrt(n);
  }
  const long double e = 64 * std::numeric_limits<T>::epsilon();
  const long double sS = std::pow((long double)scale, (int)S);
  const T d = vm::compute_determinant(a);
  CHECK(std::fabs(d - det * sS) <= e * (mag + 1) * sS, "determinant of ", show(m), " * ", scale, " is ", d, ", should be ", det * sS);
  c.op();
  // exact adjugate
  std::array<std::array<long double, S>, S> adj{}; // [row][col]
  long double amax = 0;
  if constexpr (S >= 2) {
    const auto A = vm::compute_adjugate(a);
    const long double sA = std::pow((long double)scale, (int)S - 1);
    for (std::size_t r = 0; r < S; ++r)
      for (std::size_t k = 0; k < S; ++k) {
        adj[r][k] = (long double)leibniz(minor(m, k, r)) * ((r + k) % 2 ? -1 : 1);
        amax = std::fmax(amax, std::fabs(adj[r][k]));
      }
    for (std::size_t r = 0; r < S; ++r)
      for (std::size_t k = 0; k < S; ++k) CHECK(std::fabs(A[k][r] - adj[r][k] * sA) <= e * (mag + amax + 1) * sA, "adjugate of ", show(m), " at row ", r, " col ", k, " is ", A[k][r], ", should be ", adj[r][k] * sA);
    c.op();
  } else
    adj[0][0] = 1, amax = 1;
  const auto [ok, inv] = vm::invert(a);
  CHECK(ok == (det != 0), "invert ", ok ? "succeeds" : "fails", " for ", show(m), " * ", scale, " with determinant ", det);
  vec<T, S> b;
  for (std::size_t i = 0; i < S; ++i) b[i] = T(int(i * 3 + 1) % 5 - 2 + (i == 0 ? 3 : 0));
  const auto [sok, x] = vm::lup_solve(a, b);
  CHECK(sok == (det != 0), "lup_solve ", sok ? "succeeds" : "fails", " for ", show(m), " * ", scale, " with determinant ", det);
  c.op(2);
  if (det != 0) {
    long double nrm = 0;
    for (std::size_t r = 0; r < S; ++r)
      for (std::size_t k = 0; k < S; ++k) nrm = std::fmax(nrm, std::fabs((long double)m[r][k]));
    const long double imax = amax / std::fabs(det);
    const long double cond = imax * nrm * S; // bound on the condition number
    const long double tolI = 16 * std::numeric_limits<T>::epsilon() * cond * imax * S / (long double)scale;
    for (std::size_t r = 0; r < S; ++r)
      for (std::size_t k = 0; k < S; ++k) CHECK(std::fabs(inv[k][r] - adj[r][k] / det / scale) <= tolI, "inverse of ", show(m), " * ", scale, " at row ", r, " col ", k, " is ", inv[k][r], ", should be ", adj[r][k] / det / scale);
    // two-sided, through the library's own product
    const auto l = inv * a, rr = a * inv;
    for (std::size_t r = 0; r < S; ++r)
      for (std::size_t k = 0; k < S; ++k) CHECK(mc::close(l[k][r], r == k ? 1 : 0, 64 * std::numeric_limits<T>::epsilon() * cond * S) && mc::close(rr[k][r], r == k ? 1 : 0, 64 * std::numeric_limits<T>::epsilon() * cond * S), "inverse of ", show(m), " is not two-sided");
    for (std::size_t r = 0; r < S; ++r) {
      long double want = 0;
      for (std::size_t k = 0; k < S; ++k) want += adj[r][k] * b[k];
      want /= det * scale;
      CHECK(std::fabs(x[r] - want) <= tolI * 4 * S, "solution of ", show(m), " * ", scale, " x = ", b, " is ", x, "; component ", r, " should be ", want);
    }
  }
  uint64_t h = S;
  for (const auto& r : m)
    for (auto v : r) Ctx::add(h, v);
  c.state(h, scale);
}
static const std::vector<double> SCALES{1, 1024, 0.0078125, 1.0 / (1 << 25), 1 << 20};
template <class T, std::size_t S, int Q, int TH> void all_small(Ctx& c) {
  IM<S> m{};
  const int N = c.tiered(Q, TH);
  for (auto& r : m)
    for (auto& v : r) v = c.range(-N, N);
  check_all<T, S>(c, m, T(1));
}
MC_INSTANCE("all_d1", (all_small<double, 1, 50, 1000>))
MC_INSTANCE("all_d2", (all_small<double, 2, 8, 16>))
MC_INSTANCE("all_d3", (all_small<double, 3, 2, 2>))
MC_INSTANCE("all_d3w", (all_small<double, 3, 2, 3>), 0, 0, true)
MC_INSTANCE("all_f2", (all_small<float, 2, 5, 10>))
MC_INSTANCE("all_f3", (all_small<float, 3, 1, 2>))

// 0/1 matrices of size 4, complete
template <class T> void binary4(Ctx& c) {
  IM<4> m{};
  const T s = T(c.pick(SCALES));
  for (auto& r : m)
    for (auto& v : r) v = c.range(0, 1);
  check_all<T, 4>(c, m, s);
}
MC_INSTANCE("binary4_d", (binary4<double>))
MC_INSTANCE("binary4_f", (binary4<float>))
void ternary4(Ctx& c) {
  IM<4> m{};
  for (auto& r : m)
    for (auto& v : r) v = c.range(-1, 1);
  check_all<double, 4>(c, m, 1.0);
}
MC_INSTANCE("ternary4_d", ternary4, 0, 0, true)

// every row permutation of a base matrix (all pivot orders) with a bounded number of altered elements
template <class T, std::size_t S> void pivots(Ctx& c) {
  IM<S> b{}, m{};
  const auto kind = c.choose(5);
  for (std::size_t i = 0; i < S; ++i)
    for (std::size_t j = 0; j < S; ++j) switch (kind) {
        case 0: b[i][j] = i == j; break;
        case 1: b[i][j] = i == j ? (i % 2 ? -3 : 2) : 0; break;
        case 2: b[i][j] = i == j ? 4 : (i > j ? 1 : 0); break;
        case 3: b[i][j] = i == j ? 1 : (j > i ? int(j - i) : 0); break;
        default: b[i][j] = int((i * 3 + j * 5 + i * j) % 7) - 3;
      }
  static const std::vector<long long> V{0, 1, -1, 5, 100};
  // permutation by selection; for large S only rotations and transpositions
  std::vector<std::size_t> pool(S);
  std::iota(pool.begin(), pool.end(), 0);
  if (S <= 5) {
    for (std::size_t i = 0; i < S; ++i) {
      const auto q = c.choose(uint32_t(pool.size()));
      m[i] = b[pool[q]];
      pool.erase(pool.begin() + q);
    }
  } else {
    const auto rot = c.choose(S), p = c.choose(S), q = c.choose(S);
    std::swap(pool[p], pool[q]);
    for (std::size_t i = 0; i < S; ++i) m[i] = b[pool[(i + rot) % S]];
  }
  for (auto& r : m)
    for (auto& v : r) {
      const auto d = c.dev(uint32_t(V.size()) + 1);
      if (d) v = V[d - 1];
    }
  const T s = S <= 4 ? T(c.pick(SCALES)) : T(1);
  check_all<T, S>(c, m, s);
}
MC_INSTANCE("pivots_d2", (pivots<double, 2>), 2, 4)
MC_INSTANCE("pivots_d3", (pivots<double, 3>), 2, 4)
MC_INSTANCE("pivots_d4", (pivots<double, 4>), 2, 3)
MC_INSTANCE("pivots_f4", (pivots<float, 4>), 1, 2)
MC_INSTANCE("pivots_d5", (pivots<double, 5>), 1, 2)
MC_INSTANCE("pivots_d6", (pivots<double, 6>), 0, 1)
MC_INSTANCE("pivots_d9", (pivots<double, 9>), 0, 0, true)

// larger systems: inversion and solving only (the determinant's Laplace expansion is exponential), all row rotations and
// transpositions of several dense and triangular families, every right hand side axis
template <class T, std::size_t S> void large(Ctx& c) {
  IM<S> b{}, m{};
  const auto kind = c.choose(7);
  for (std::size_t i = 0; i < S; ++i)
    for (std::size_t j = 0; j < S; ++j) switch (kind) {
        case 0: b[i][j] = i == j ? (i % 2 ? -3 : 2) : 0; break;
        case 1: b[i][j] = i == j ? 4 : (i > j ? 1 : 0); break;
        case 2: b[i][j] = i == j ? 2 : (j > i ? int((j - i) % 3) - 1 : 0); break;
        case 3: b[i][j] = i == j ? 3 : (j > i ? 1 : 0); break;
        case 4: b[i][j] = i == j ? int(S) : int((i * 3 + j * 5 + i * j) % 3) - 1; break;
        case 5: b[i][j] = i == j ? int(S) + 2 : 1; break;
        default: b[i][j] = i == j ? 1 : (i == S - 1 || j == S - 1) ? 1 : 0; break; // arrow; singular for S == 2 only
      }
  std::vector<std::size_t> pool(S);
  std::iota(pool.begin(), pool.end(), 0);
  const auto rot = c.choose(S), p = c.choose(S), q = c.choose(S);
  if (p > q) return c.skip();
  std::swap(pool[p], pool[q]);
  for (std::size_t i = 0; i < S; ++i) m[i] = b[pool[(i + rot) % S]];
  // make it singular: one row a copy of or the negative of another
  const auto sing = c.choose(3);
  if (sing) {
    for (std::size_t k = 0; k < S; ++k) m[S - 1 - rot % S][k] = (sing == 1 ? 1 : -1) * m[(S - rot % S) % S][k];
  }
  const long long det = leibniz(m);
  const T scale = T(c.pick(std::vector<double>{1, 1.0 / (1 << 20), 1 << 20}));
  mat<T, S, S> a;
  for (std::size_t r = 0; r < S; ++r)
    for (std::size_t k = 0; k < S; ++k) a[k][r] = T(m[r][k]) * scale;
  NOTE("M=", show(m), " scale=", scale, " determinant ", det);
  const auto [ok, inv] = vm::invert(a);
  if (det != 0) CHECK(ok, "invert fails for ", show(m), " * ", scale, " with determinant ", det);
  if (det == 0 && sing) CHECK(!ok, "invert succeeds for ", show(m), " * ", scale, " which is singular");
  const T tol = T(4096) * std::numeric_limits<T>::epsilon();
  if (det != 0) {
    const auto I = inv * a, J = a * inv;
    for (std::size_t r = 0; r < S; ++r)
      for (std::size_t k = 0; k < S; ++k) CHECK(mc::close(I[k][r], r == k ? 1 : 0, tol) && mc::close(J[k][r], r == k ? 1 : 0, tol), "inverse of ", show(m), " is not two-sided at row ", r, " column ", k);
  }
  for (std::size_t ax = 0; ax <= S; ++ax) {
    vec<T, S> rhs;
    for (std::size_t i = 0; i < S; ++i) rhs[i] = ax == S ? T(int(i * 3 + 1) % 5 - 2) : T(i == ax ? 1 : 0);
    const auto [sok, x] = vm::lup_solve(a, rhs);
    CHECK(sok == ok, "lup_solve ", sok ? "succeeds" : "fails", " for ", show(m), " * ", scale);
    if (det != 0)
      for (std::size_t r = 0; r < S; ++r) {
        long double sum = 0;
        for (std::size_t k = 0; k < S; ++k) sum += (long double)m[r][k] * scale * x[k];
        CHECK(std::fabs(sum - rhs[r]) <= tol, "solution of ", show(m), " * ", scale, " x = ", rhs, " is ", x, " which misses equation ", r);
      }
    c.op();
  }
  uint64_t h = S;
  for (const auto& r : m)
    for (auto v : r) Ctx::add(h, v);
  c.state(h, scale);
}
MC_INSTANCE("large_d6", (large<double, 6>))
MC_INSTANCE("large_d7", (large<double, 7>))
MC_INSTANCE("large_d8", (large<double, 8>))
MC_INSTANCE("large_d10", (large<double, 10>))
MC_INSTANCE("large_d12", (large<double, 12>), 0, 0, true)

// dense matrices whose elements use every digit of T: determinant, adjugate, inverse and solution against the same
// quantities in extended precision
template <class T, std::size_t S> void digits(Ctx& c) {
  static const std::vector<double> W{1, -3e-4, 1e5, 0.1};
  const int a1 = c.range(1, 7), a2 = c.range(0, 6), a3 = c.range(0, 3), md = c.range(5, 9);
  const T w = T(c.pick(W));
  using LM = std::array<std::array<long double, S>, S>;
  mat<T, S, S> a;
  LM m{};
  long double nrm = 0;
  for (std::size_t r = 0; r < S; ++r)
    for (std::size_t k = 0; k < S; ++k) {
      a[k][r] = w * (T(int(r * a1 + k * a2 + r * k * a3 + (r == k ? 4 : 0)) % md) - T(2.3));
      m[r][k] = a[k][r];
      nrm = std::fmax(nrm, std::fabs(m[r][k]));
    }
  // Gauss-Jordan elimination with complete search for the pivot in the column
  LM g = m, inv{};
  for (std::size_t i = 0; i < S; ++i) inv[i][i] = 1;
  long double det = 1;
  for (std::size_t k = 0; k < S; ++k) {
    std::size_t p = k;
    for (std::size_t r = k; r < S; ++r)
      if (std::fabs(g[r][k]) > std::fabs(g[p][k])) p = r;
    if (std::fabs(g[p][k]) < 0.05L * nrm) return c.skip(); // ill conditioned
    if (p != k) std::swap(g[p], g[k]), std::swap(inv[p], inv[k]), det = -det;
    const long double d = g[k][k];
    det *= d;
    for (std::size_t j = 0; j < S; ++j) g[k][j] /= d, inv[k][j] /= d;
    for (std::size_t r = 0; r < S; ++r)
      if (r != k) {
        const long double f = g[r][k];
        for (std::size_t j = 0; j < S; ++j) g[r][j] -= f * g[k][j], inv[r][j] -= f * inv[k][j];
      }
  }
  long double imax = 0;
  for (const auto& r : inv)
    for (auto v : r) imax = std::fmax(imax, std::fabs(v));
  const long double cond = imax * nrm * S;
  if (cond > 1000) return c.skip();
  const long double e = 8 * S * S * std::numeric_limits<T>::epsilon() * cond;
  const T d = vm::compute_determinant(a);
  CHECK(std::fabs(d - det) <= e * std::fabs(det), "determinant is ", d, ", should be ", det);
  if constexpr (S >= 2) {
    const auto A = vm::compute_adjugate(a);
    for (std::size_t r = 0; r < S; ++r)
      for (std::size_t k = 0; k < S; ++k) CHECK(std::fabs(A[k][r] - inv[r][k] * det) <= e * imax * std::fabs(det), "adjugate at row ", r, " column ", k, " is ", A[k][r], ", should be ", inv[r][k] * det);
  }
  const auto [ok, iv] = vm::invert(a);
  CHECK(ok, "invert fails");
  vec<T, S> b;
  for (std::size_t i = 0; i < S; ++i) b[i] = T(int(i * 3 + std::size_t(a1)) % 5) - T(1.7);
  const auto [sok, x] = vm::lup_solve(a, b);
  CHECK(sok, "lup_solve fails");
  for (std::size_t r = 0; r < S; ++r) {
    long double want = 0;
    for (std::size_t k = 0; k < S; ++k) {
      want += inv[r][k] * b[k];
      CHECK(std::fabs(iv[k][r] - inv[r][k]) <= e * imax, "inverse at row ", r, " column ", k, " is ", iv[k][r], ", should be ", inv[r][k]);
    }
    CHECK(std::fabs(x[r] - want) <= e * imax * 4 * S, "solution component ", r, " is ", x[r], ", should be ", want);
  }
  c.op(4);
  uint64_t h = S;
  for (std::size_t k = 0; k < S; ++k) Ctx::add(h, a[k]);
  c.state(h);
}
MC_INSTANCE("digits_d1", (digits<double, 1>))
MC_INSTANCE("digits_d2", (digits<double, 2>))
MC_INSTANCE("digits_d3", (digits<double, 3>))
MC_INSTANCE("digits_d4", (digits<double, 4>))
MC_INSTANCE("digits_d5", (digits<double, 5>))
MC_INSTANCE("digits_d6", (digits<double, 6>))
MC_INSTANCE("digits_f3", (digits<float, 3>))
MC_INSTANCE("digits_f4", (digits<float, 4>))
