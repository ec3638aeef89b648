// Reference geometry in extended precision, independent of the library.
#pragma once
#include "mc.hpp"
namespace ref {
using R = long double;
constexpr R PI = 3.14159265358979323846264338327950288L;
struct V3 {
  R x = 0, y = 0, z = 0;
  R operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
  R& operator[](int i) { return i == 0 ? x : i == 1 ? y : z; }
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator-(V3 a) { return {-a.x, -a.y, -a.z}; }
inline V3 operator*(V3 a, R s) { return {a.x * s, a.y * s, a.z * s}; }
inline V3 operator*(R s, V3 a) { return a * s; }
inline V3 operator/(V3 a, R s) { return {a.x / s, a.y / s, a.z / s}; }
inline R dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline R len(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 unit(V3 a) { return a / len(a); }
inline R dist(V3 a, V3 b) { return len(a - b); }
inline V3 perp(V3 n) { // some unit vector perpendicular to n
  V3 h = std::fabs(n.x) <= std::fabs(n.y) && std::fabs(n.x) <= std::fabs(n.z) ? V3{1, 0, 0} : std::fabs(n.y) <= std::fabs(n.z) ? V3{0, 1, 0} : V3{0, 0, 1};
  return unit(cross(h, n));
}
// right-handed rotation of p about the unit axis a
inline V3 rotate(V3 p, V3 a, R t) { return p * std::cos(t) + cross(a, p) * std::sin(t) + a * (dot(a, p) * (1 - std::cos(t))); }
inline std::ostream& operator<<(std::ostream& s, V3 v) { return s << "{" << v.x << " " << v.y << " " << v.z << "}"; }
template <class V> V3 from(const V& v) { return {(R)v[0], (R)v[1], (R)v[2]}; }
inline V3 from(const std::array<int, 3>& v) { return {(R)v[0], (R)v[1], (R)v[2]}; }
inline bool near(V3 a, V3 b, R tol) {
  return std::isfinite(a.x + a.y + a.z) && std::isfinite(b.x + b.y + b.z) && std::fabs(a.x - b.x) <= tol && std::fabs(a.y - b.y) <= tol && std::fabs(a.z - b.z) <= tol;
}
// orthonormal frames: a generic rotation followed by each of the 48 signed permutations of the axes, so that the images
// of one vector have their components in every order of size and with every combination of signs
struct Frame {
  V3 x{1, 0, 0}, y{0, 1, 0}, z{0, 0, 1};
  R det = 1;
  V3 operator()(V3 p) const { return x * p.x + y * p.y + z * p.z; }
};
inline const std::vector<Frame>& frames() {
  static const std::vector<Frame> F = [] {
    std::vector<Frame> r;
    const V3 a = unit(V3{1, -2, 3});
    for (const std::array<int, 3>& p : {std::array<int, 3>{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}})
      for (int s = 0; s < 8; ++s) {
        const auto map = [&](V3 v) {
          const V3 u = rotate(v, a, 0.7L);
          V3 q;
          for (int i = 0; i < 3; ++i) q[i] = u[p[i]] * (s >> i & 1 ? -1 : 1);
          return q;
        };
        Frame f{map({1, 0, 0}), map({0, 1, 0}), map({0, 0, 1}), 1};
        f.det = dot(cross(f.x, f.y), f.z) > 0 ? 1 : -1;
        r.push_back(f);
      }
    return r;
  }();
  return F;
}
inline std::string str(V3 v) {
  std::ostringstream s;
  s.precision(17);
  s << v;
  return s.str();
}
} // namespace ref
