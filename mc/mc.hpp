// Stateless bounded-exhaustive explorer for sequential code.
//
// A "program" is a function that builds one execution of the library from a sequence of
// nondeterministic choices (operation, operand, shape, environment answer).  The explorer runs the
// program once for EVERY choice sequence: it replays a prefix, takes choice 0 afterwards and then
// backtracks (odometer over the choice tree).  Choices made through dev() carry a deviation cost:
// alternative 0 is the default answer, all others cost one deviation, and the explorer iterates
// the deviation bound 0,1,..,B.  Nothing is sampled.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

// lazily evaluated oracle check / trace note
#define CHECK(cond, ...)                                                                            \
  do {                                                                                              \
    if (__builtin_expect(!(cond), 0)) c.fail(__VA_ARGS__);                                          \
  } while (0)
#define NOTE(...)                                                                                   \
  do {                                                                                              \
    if (__builtin_expect(c.noting(), 0)) c.note(__VA_ARGS__);                                       \
  } while (0)

namespace mc {
template <class T, class = void> struct is_vecmath_vec : std::false_type {};
template <class T> struct is_vecmath_vec<T, std::void_t<typename T::type, decltype(T::size), decltype(std::declval<const T&>().v[0])>> : std::is_arithmetic<typename T::type> {};

constexpr std::size_t MAX_CHOICES = 2048;

struct Violation {
  std::string msg;
};
struct ShardPrune {};

// state shared between the worker processes and the supervising parent (lives in a MAP_SHARED page)
struct Slot {
  volatile int program = -1;
  volatile uint32_t bound = 0;
  volatile uint32_t pos = 0;
  volatile uint64_t trace_serial = 0;
  uint32_t choice[MAX_CHOICES];
};

uint64_t inline mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}

class Ctx {
public:
  // --- choices -----------------------------------------------------------------------------
  uint32_t choose(uint32_t n) {
    if (n == 0) die("choose(0)");
    const uint32_t p = slot->pos;
    if (p >= MAX_CHOICES) die("too many choices");
    if (p >= depth) {
      // new choice point: default alternative
      slot->choice[p] = 0;
      arity[p] = n;
      depth = p + 1;
    } else if (arity[p] == 0) {
      arity[p] = n; // arity not known yet: replaying an externally supplied trace
      if (slot->choice[p] >= n) die("replay divergence: choice out of range");
    } else if (arity[p] != n) {
      die("nondeterministic program: arity changed on replay");
    }
    slot->pos = p + 1;
    if (shards > 1 && !split_done) {
      split_prod *= n;
      if (split_prod >= 256) {
        split_done = true;
        // move on to the next sibling that belongs to this shard
        while (split_index(p) % shards != shard) {
          if (slot->choice[p] + 1 >= n) throw ShardPrune{};
          slot->choice[p] = slot->choice[p] + 1;
        }
      }
    }
    return slot->choice[p];
  }
  // choice with deviation cost: alternative 0 is free, all others cost 1 deviation
  uint32_t dev(uint32_t n) {
    if (deviations >= bound) {
      if (n > 1) truncated = true;
      return 0;
    }
    const uint32_t c = choose(n);
    if (c != 0) ++deviations;
    return c;
  }
  // distribute the work over the workers at this point of the choice tree (for few, heavy traces)
  void split_here() {
    if (shards > 1 && !split_done) {
      split_done = true;
      const uint32_t p = slot->pos;
      if ((p == 0 ? 0 : split_index(p - 1)) % shards != shard) throw ShardPrune{};
    }
  }
  bool flag() { return choose(2) != 0; }
  int range(int lo, int hi) { return lo + static_cast<int>(choose(static_cast<uint32_t>(hi - lo + 1))); }
  template <class C> const auto& pick(const C& c) { return c[choose(static_cast<uint32_t>(std::size(c)))]; }
  // default alphabet first; alternatives from the second alphabet cost one deviation
  template <class C, class D> auto pick_dev(const C& base, const D& special) {
    const uint32_t d = dev(static_cast<uint32_t>(std::size(special)) + 1u);
    if (d == 0) return base[choose(static_cast<uint32_t>(std::size(base)))];
    return special[d - 1];
  }

  // --- bookkeeping -------------------------------------------------------------------------
  void op(uint64_t n = 1) { ops += n; }
  template <class... A> void state(const A&... a) {
    uint64_t h = static_cast<uint64_t>(slot->program) * 0x9e3779b97f4a7c15ULL + 12345;
    (add(h, a), ...);
    pending_state(h);
  }
  void skip() { skipped = true; }
  bool is_skipped() const { return skipped; }
  bool thorough() const { return tier_thorough; }
  template <class Q> Q tiered(Q q, Q t) const { return tier_thorough ? t : q; }

  bool verbose() const { return replaying; }
  bool noting() const { return replaying || sampling; }
  template <class... A> void note(const A&... a) {
    if (!replaying && !sampling) return;
    std::ostringstream s;
    s.precision(17);
    (put(s, a), ...);
    notes.push_back(s.str());
  }

  // --- oracle ------------------------------------------------------------------------------
  template <class... A> [[noreturn]] void fail(const A&... a) {
    std::ostringstream s;
    s.precision(17);
    (put(s, a), ...);
    throw Violation{s.str()};
  }
  template <class... A> void check(bool ok, const A&... a) {
    if (__builtin_expect(!ok, 0)) fail(a...);
  }

  template <class T> static void put(std::ostream& s, const T& v) {
    if constexpr (std::is_same_v<T, bool>) s << (v ? "true" : "false");
    else if constexpr (std::is_arithmetic_v<T> && sizeof(T) == 1) s << int(v);
    else if constexpr (std::is_arithmetic_v<T> || std::is_convertible_v<T, std::string>) s << v;
    else if constexpr (std::is_enum_v<T>) s << static_cast<long long>(v);
    else put_range(s, v);
  }
  template <class T> static std::enable_if_t<is_vecmath_vec<T>::value> put_range(std::ostream& s, const T& v) {
    s << "[";
    for (std::size_t i = 0; i < T::size; ++i) s << (i ? " " : "") << v[i];
    s << "]";
  }
  template <class T> static std::enable_if_t<!is_vecmath_vec<T>::value> put_range(std::ostream& s, const T& v) {
    s << "(";
    bool first = true;
    for (const auto& x : v) {
      if (!first) s << " ";
      first = false;
      put(s, x);
    }
    s << ")";
  }

  // --- explorer internals ------------------------------------------------------------------
  [[noreturn]] static void die(const char* what) {
    std::fprintf(stderr, "MC-INTERNAL-ERROR: %s\n", what);
    std::_Exit(77);
  }
  template <class T> static void add(uint64_t& h, const T& v) {
    if constexpr (std::is_floating_point_v<T>) {
      double d = static_cast<double>(v);
      if (d == 0.0) d = 0.0;
      uint64_t b;
      std::memcpy(&b, &d, 8);
      h = mix(h, b);
    } else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
      h = mix(h, static_cast<uint64_t>(v));
    } else if constexpr (is_vecmath_vec<T>::value) {
      for (std::size_t i = 0; i < T::size; ++i) add(h, v[i]);
    } else {
      for (const auto& x : v) add(h, x);
    }
  }
  uint64_t split_index(uint32_t p) const {
    uint64_t i = 0;
    for (uint32_t k = 0; k <= p; ++k) i = i * 1000003ULL + slot->choice[k] + 1;
    i ^= i >> 29;
    i *= 0xbf58476d1ce4e5b9ULL;
    i ^= i >> 32;
    return i;
  }
  void begin() {
    slot->pos = 0;
    deviations = 0;
    ops = 0;
    nstates = 0;
    skipped = false;
    split_done = false;
    split_prod = 1;
    notes.clear();
  }
  bool next() { // backtrack: advance the odometer; false when the tree is exhausted
    uint32_t p = slot->pos;
    depth = p;
    while (p > 0) {
      if (slot->choice[p - 1] + 1 < arity[p - 1]) {
        slot->choice[p - 1] = slot->choice[p - 1] + 1;
        depth = p;
        return true;
      }
      --p;
      depth = p;
    }
    return false;
  }
  void pending_state(uint64_t h) {
    if (nstates < states_buf.size()) states_buf[nstates++] = h;
  }

  Slot* slot = nullptr;
  std::array<uint32_t, MAX_CHOICES> arity{};
  uint32_t depth = 0;
  uint32_t bound = 0;
  uint32_t deviations = 0;
  uint64_t ops = 0;
  std::array<uint64_t, 64> states_buf{};
  std::size_t nstates = 0;
  bool skipped = false;
  bool truncated = false;
  bool tier_thorough = false;
  bool replaying = false;
  bool sampling = false;
  uint32_t shards = 1, shard = 0;
  bool split_done = false;
  uint64_t split_prod = 1;
  std::vector<std::string> notes;
};

struct Program {
  const char* name;
  void (*fn)(Ctx&);
  uint32_t dev_quick;    // deviation bound, quick tier
  uint32_t dev_thorough; // deviation bound, thorough tier
  bool thorough_only;
};
std::vector<Program>& programs();
struct Registrar {
  Registrar(const char* n, void (*f)(Ctx&), uint32_t dq = 0, uint32_t dt = 0, bool to = false) {
    programs().push_back({n, f, dq, dt, to});
  }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_PROGRAM(name, ...)                                                                       \
  static void name(mc::Ctx& c);                                                                     \
  static mc::Registrar MC_CAT(reg_##name, __LINE__)(#name, name, ##__VA_ARGS__);                    \
  static void name([[maybe_unused]] mc::Ctx& c)
// registers an explicit instantiation of a program template
#define MC_INSTANCE(label, fn, ...)                                                                 \
  static mc::Registrar MC_CAT(reg_inst_, __COUNTER__)(label, fn, ##__VA_ARGS__);

// --- numeric helpers for oracles --------------------------------------------------------------
template <class T> inline bool same(T a, T b) { // same value (NaN equals NaN, -0 equals +0)
  return a == b || (a != a && b != b);
}
// |a-b| <= rel * max(scale, |a|, |b|)
template <class A, class B> inline bool close(A a, B b, long double rel, long double scale = 1.0L) {
  const long double x = a, y = b;
  if (x == y) return true;
  if (!(std::isfinite(x) && std::isfinite(y))) return false;
  const long double m = std::fmax(scale, std::fmax(std::fabs(x), std::fabs(y)));
  return std::fabs(x - y) <= rel * m;
}
template <class T> constexpr long double tol() { return sizeof(T) == 4 ? 2e-4L : 1e-9L; }
} // namespace mc
