// C26  text parsing and printing round-trip and never misread input
// mc-flags: -O1 asan
// mc-assume: every relevant token is a number by itself or does not start with a number (tokens like "1abc" are not specified); incomplete items occur only at the end of a list
#include "mc.hpp"
#include <cstring>
#include <limits>
#include <list>
#include <memory>
#include <sstream>
#include <vecmath/bbox_io.h>
#include <vecmath/line_io.h>
#include <vecmath/mat_io.h>
#include <vecmath/plane_io.h>
#include <vecmath/ray_io.h>
#include <vecmath/vec_io.h>
using mc::Ctx;
using vm::mat;
using vm::vec;

static std::string q(const std::string& s) {
  std::string r = "\"";
  for (char ch : s) {
    if (ch == '\n') r += "\\n";
    else if (ch == '\t') r += "\\t";
    else if (ch == '\r') r += "\\r";
    else r += ch;
  }
  return r + "\"";
}
// calls f with a view of exactly this text, once at the end of its heap block and once inside a longer text
template <class F> void views(const std::string& s, F f) {
  std::unique_ptr<char[]> exact(new char[s.size() + 1]); // one more in front, none behind
  exact[0] = '9';
  if (!s.empty()) std::memcpy(exact.get() + 1, s.data(), s.size());
  f(std::string_view(exact.get() + 1, s.size()));
  for (const char* tail : {"9", ".5e1", " 8", "e2"}) {
    const std::string t = "7" + s + tail;
    f(std::string_view(t.data() + 1, s.size()));
  }
}
struct Tok {
  const char* text;
  bool number;
  double value;
};
static const std::vector<Tok> TOK{{"1", true, 1}, {"-2.5", true, -2.5}, {"asdf", false, 0}, {".5", true, 0.5}, {"+3e2", true, 300}, {"007", true, 7}, {"-", false, 0}, {"1e-3", true, 1e-3}, {",", false, 0}, {"0.1", true, 0.1}};
static const Tok* find_tok(const std::string& s) {
  for (auto& t : TOK)
    if (s == t.text) return &t;
  return nullptr;
}
static bool blank(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '(' || ch == ')'; }
// 1 parses, 0 does not, -1 not specified
static int model(const std::string& s, std::size_t n, std::vector<double>& v) {
  std::size_t i = 0;
  v.clear();
  while (v.size() < n) {
    while (i < s.size() && blank(s[i])) ++i;
    if (i == s.size()) return 0;
    const std::size_t b = i;
    while (i < s.size() && !blank(s[i])) ++i;
    const Tok* t = find_tok(s.substr(b, i - b));
    if (!t) return -1;
    if (!t->number) return 0;
    v.push_back(t->value);
  }
  return 1;
}
template <class T, std::size_t S> void parse_vec(Ctx& c, const std::string& s) {
  std::vector<double> v;
  const int m = model(s, S, v);
  if (m < 0) return;
  views(s, [&](std::string_view sv) {
    const auto r = vm::parse<T, S>(sv);
    c.op();
    if (m == 0) CHECK(!r.has_value(), "parsed ", *r, " from ", q(s));
    else {
      CHECK(r.has_value(), "did not parse ", S, " components from ", q(s));
      for (std::size_t i = 0; i < S; ++i) CHECK((*r)[i] == T(v[i]), "component ", i, " of ", q(s), " is ", (*r)[i], ", should be ", T(v[i]));
    }
  });
}
template <class T, std::size_t R, std::size_t C> void parse_mat(Ctx& c, const std::string& s) {
  std::vector<double> v;
  const int m = model(s, R * C, v);
  if (m < 0) return;
  views(s, [&](std::string_view sv) {
    const auto r = vm::parse<T, R, C>(sv);
    c.op();
    if (m == 0) CHECK(!r.has_value(), "parsed a matrix from ", q(s));
    else {
      CHECK(r.has_value(), "did not parse a ", R, "x", C, " matrix from ", q(s));
      for (std::size_t i = 0; i < R; ++i)
        for (std::size_t j = 0; j < C; ++j) CHECK((*r)[j][i] == T(v[i * C + j]), "element ", i, ",", j, " of ", q(s), " is ", (*r)[j][i], ", should be ", T(v[i * C + j]));
    }
  });
}
// all texts of a few pieces
void pieces(Ctx& c) {
  static const std::vector<const char*> P{" ", "1", "-2.5", "(", ")", "asdf", "\n", ".5", "\t", "\r"};
  const int n = c.range(0, c.tiered(5, 6));
  std::string s;
  for (int i = 0; i < n; ++i) s += c.pick(P);
  parse_vec<double, 1>(c, s);
  parse_vec<float, 2>(c, s);
  parse_vec<double, 3>(c, s);
  parse_mat<double, 1, 2>(c, s);
  uint64_t h = 0;
  for (char ch : s) Ctx::add(h, ch);
  c.state(h);
}
MC_INSTANCE("pieces", pieces)
// well formed texts of S numbers with every separator, up to k deviations (including junk and missing numbers)
template <std::size_t N> std::string row(Ctx& c) {
  static const std::vector<const char*> W{" ", "\t", "\n", "\r\n", "(", ") (", "   "}, LEAD{"", " ", "(", "( ", "\n\n"}, TRAIL{"", " ", ")", " )", " asdf", " 1", ") -2.5 x", "\n"};
  std::string s = LEAD[c.dev(uint32_t(LEAD.size()))];
  const uint32_t drop = c.dev(uint32_t(N) + 1); // number of missing numbers at the end
  for (std::size_t i = 0; i + drop < N; ++i) {
    if (i) s += W[c.dev(uint32_t(W.size()))];
    s += TOK[c.dev(uint32_t(TOK.size()))].text;
  }
  return s + TRAIL[c.dev(uint32_t(TRAIL.size()))];
}
template <class T, std::size_t N> void vec_rows(Ctx& c) {
  const std::string s = row<N>(c);
  parse_vec<T, N>(c, s);
  uint64_t h = 0;
  for (char ch : s) Ctx::add(h, ch);
  c.state(h);
}
MC_INSTANCE("vec1", (vec_rows<double, 1>), 3, 3)
MC_INSTANCE("vec2", (vec_rows<float, 2>), 3, 5)
MC_INSTANCE("vec3", (vec_rows<double, 3>), 3, 4)
MC_INSTANCE("vec4", (vec_rows<float, 4>), 2, 4)
MC_INSTANCE("vec6", (vec_rows<double, 6>), 2, 3)
template <class T, std::size_t R, std::size_t C> void mat_rows(Ctx& c) {
  const std::string s = row<R * C>(c);
  parse_mat<T, R, C>(c, s);
  uint64_t h = 0;
  for (char ch : s) Ctx::add(h, ch);
  c.state(h);
}
MC_INSTANCE("mat22", (mat_rows<double, 2, 2>), 2, 4)
MC_INSTANCE("mat23", (mat_rows<float, 2, 3>), 2, 3)
MC_INSTANCE("mat32", (mat_rows<double, 3, 2>), 2, 3)
MC_INSTANCE("mat44", (mat_rows<double, 4, 4>), 2, 2)

// --- lists ----------------------------------------------------------------------------------------
template <class T, std::size_t S> void list(Ctx& c) {
  static const std::vector<const char*> SEP{" ", ", ", ";", ",", "\n", " ; ", "\t,\r\n", ";;", " "};
  static const std::vector<double> V{1, -2.5, 0.5, 300};
  static const std::vector<const char*> VT{"1", "-2.5", ".5", "+3e2"};
  const int n = c.range(0, c.tiered(3, 4));
  std::string s = c.dev(2) ? " " : "";
  std::vector<vec<T, S>> want;
  for (int i = 0; i < n; ++i) {
    if (i) s += SEP[c.dev(uint32_t(SEP.size()))];
    const uint32_t kind = c.dev(4); // bare, in brackets, junk, an item cut short by junk
    vec<T, S> v;
    std::string t;
    for (std::size_t k = 0; k < S; ++k) {
      const uint32_t x = (uint32_t(i) + c.dev(4)) % 4;
      v[k] = T(V[x]);
      if (k) t += c.dev(2) ? "\t" : " ";
      t += VT[x];
    }
    if (kind == 0) s += t, want.push_back(v);
    else if (kind == 1) s += "(" + t + ")", want.push_back(v);
    else if (kind == 2) s += "asdf";
    else {
      const auto at = t.find_last_of(" \t");
      s += (at == std::string::npos ? "" : t.substr(0, at) + " ") + "x";
    }
  }
  const uint32_t tail = c.dev(5); // nothing, a separator, an incomplete item
  if (tail == 1) s += " ";
  else if (tail == 2) s += ",";
  else if (tail == 3 && S > 1) s += n ? ", 1" : "1";
  else if (tail == 4) s += " (";
  NOTE("list ", q(s));
  views(s, [&](std::string_view sv) {
    std::vector<vec<T, S>> got;
    vm::parse_all<T, S>(sv, std::back_inserter(got));
    CHECK(got.size() == want.size(), "parsed ", got, ", should be ", want);
    for (std::size_t i = 0; i < got.size(); ++i) CHECK(got[i] == want[i], "parsed ", got, ", should be ", want);
    c.op();
  });
  uint64_t h = 0;
  for (char ch : s) Ctx::add(h, ch);
  c.state(h);
}
MC_INSTANCE("list1", (list<double, 1>), 3, 4)
MC_INSTANCE("list2", (list<float, 2>), 3, 4)
MC_INSTANCE("list3", (list<double, 3>), 3, 4)

// --- printing ---------------------------------------------------------------------------------------
template <class T> const std::vector<T>& special() {
  using L = std::numeric_limits<T>;
  static const std::vector<T> v{T(0), T(1), T(-0.0), T(-2.5), T(0.1), T(1) / T(3), L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(), T(16777217.0), T(1e10), T(-1e-7), L::infinity()};
  return v;
}
template <class T> std::string txt(T x, int prec) {
  std::ostringstream o;
  o.precision(prec);
  o << x;
  return o.str();
}
template <class V> std::string comps(const V& v, std::size_t n, int prec) {
  std::string s;
  for (std::size_t i = 0; i < n; ++i) s += (i ? " " : "") + txt(v[i], prec);
  return s;
}
template <class X> std::string shown(const X& x, int prec) {
  std::ostringstream o;
  o.precision(prec);
  o << x;
  return o.str();
}
template <class T, std::size_t S> vec<T, S> any(Ctx& c) {
  vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) {
    const uint32_t k = c.dev(uint32_t(special<T>().size()));
    v[i] = k ? special<T>()[k] : T(i + 2);
  }
  return v;
}
template <class T, std::size_t S> void print_vec(Ctx& c) {
  using L = std::numeric_limits<T>;
  const auto v = any<T, S>(c);
  for (int prec : {3, 6, L::max_digits10}) {
    const std::string s = shown(v, prec);
    CHECK(s == comps(v, S, prec), "printed ", q(s), ", should be ", q(comps(v, S, prec)));
    c.op();
  }
  const std::string s = shown(v, L::max_digits10);
  for (const std::string& t : {s, "(" + s + ")", " ( " + s + " ) x"}) {
    const auto r = vm::parse<T, S>(t);
    CHECK(r.has_value(), "did not parse ", q(t));
    for (std::size_t i = 0; i < S; ++i) CHECK(mc::same((*r)[i], v[i]), "round trip of ", q(t), " changes component ", i, " to ", (*r)[i]);
    c.op();
  }
  std::vector<vec<T, S>> l;
  vm::parse_all<T, S>(s + ";" + s + ", (" + s + ")", std::back_inserter(l));
  CHECK(l.size() == 3 && l[0] == v && l[1] == v && l[2] == v, "round trip of a list of three times ", q(s), " yields ", l);
  c.op();
  c.state(v);
}
MC_INSTANCE("print_vec1", (print_vec<double, 1>), 1, 1)
MC_INSTANCE("print_vec2", (print_vec<float, 2>), 2, 2)
MC_INSTANCE("print_vec3", (print_vec<double, 3>), 3, 3)
MC_INSTANCE("print_vec3f", (print_vec<float, 3>), 2, 3)
MC_INSTANCE("print_vec4", (print_vec<double, 4>), 2, 3)
template <class T, std::size_t R, std::size_t C> void print_mat(Ctx& c) {
  using L = std::numeric_limits<T>;
  mat<T, R, C> m;
  const auto v = any<T, R * C>(c);
  for (std::size_t i = 0; i < R; ++i)
    for (std::size_t j = 0; j < C; ++j) m[j][i] = v[i * C + j];
  for (int prec : {3, L::max_digits10}) {
    const std::string s = shown(m, prec);
    CHECK(s == comps(v, R * C, prec), "printed ", q(s), ", should be ", q(comps(v, R * C, prec)));
  }
  const auto r = vm::parse<T, R, C>(shown(m, L::max_digits10));
  CHECK(r.has_value() && *r == m, "round trip of ", q(shown(m, L::max_digits10)), " fails");
  c.op(3);
  c.state(v);
}
MC_INSTANCE("print_mat22", (print_mat<double, 2, 2>), 2, 3)
MC_INSTANCE("print_mat23", (print_mat<float, 2, 3>), 2, 3)
MC_INSTANCE("print_mat32", (print_mat<double, 3, 2>), 2, 3)
MC_INSTANCE("print_mat44", (print_mat<double, 4, 4>), 1, 2)
template <class T, std::size_t S> void print_other(Ctx& c) {
  const auto a = any<T, S>(c), b = any<T, S>(c);
  const auto e = any<T, 1>(c);
  for (int prec : {6, 17}) {
    const std::string A = comps(a, S, prec), B = comps(b, S, prec);
    std::string s = shown(vm::line<T, S>(a, b), prec), w = "{ point: (" + A + "), direction: (" + B + ") }";
    CHECK(s == w, "printed line ", q(s), ", should be ", q(w));
    s = shown(vm::ray<T, S>(a, b), prec), w = "{ origin: (" + A + "), direction: (" + B + ") }";
    CHECK(s == w, "printed ray ", q(s), ", should be ", q(w));
    s = shown(vm::plane<T, S>(e[0], b), prec), w = "{ normal: (" + B + "), distance: " + txt(e[0], prec) + " }";
    CHECK(s == w, "printed plane ", q(s), ", should be ", q(w));
    vm::bbox<T, S> x;
    x.min = a, x.max = b;
    s = shown(x, prec), w = "{ min: (" + A + "), max: (" + B + ") }";
    CHECK(s == w, "printed box ", q(s), ", should be ", q(w));
    c.op(4);
  }
  c.state(a, b, e);
}
MC_INSTANCE("print_other3", (print_other<double, 3>), 2, 3)
MC_INSTANCE("print_other2", (print_other<float, 2>), 2, 3)

// --- long inputs ------------------------------------------------------------------------------------
// numbers of many notations and lengths, parsed to the value that the C library assigns to them
template <class T, std::size_t S> void notations(Ctx& c) {
  static const std::vector<std::string> N{"1", "+1", "-0", "1.", ".25", "-.25", "1e3", "1E+3", "1e-03", "0x10", "0x1.8p3", "inf", "-INF", "infinity", "1e400", "1e-400", "4.9e-324", "1.7976931348623157e308", "123456789.123456789", "0.1000000000000000055511151231257827021181583404541015625", "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899", "00000000000000000000000000000000000000000000000000000000000000000000001.5", "100000000000000000000000000000000000000000000000000000000000000000000000000000000", "0.00000000000000000000000000000000000000000000000000000000000000000000000000000025", "16777217", "-1e5", "12345678901234567890", "9007199254740993"};
  std::string s;
  double v[S];
  for (std::size_t i = 0; i < S; ++i) {
    const std::string& t = N[(c.choose(uint32_t(i == 0 ? N.size() : 4)) * (i == 0 ? 1 : 7) + i) % N.size()];
    s += (i ? " " : "") + t;
    v[i] = std::strtod(t.c_str(), nullptr);
  }
  if (c.flag()) s = "( " + s + " )";
  views(s, [&](std::string_view sv) {
    const auto r = vm::parse<T, S>(sv);
    CHECK(r.has_value(), "did not parse ", q(s));
    for (std::size_t i = 0; i < S; ++i) CHECK((*r)[i] == T(v[i]), "component ", i, " of ", q(s), " is ", (*r)[i], ", should be ", T(v[i]));
    c.op();
  });
  uint64_t h = 0;
  for (char ch : s) Ctx::add(h, ch);
  c.state(h);
}
MC_INSTANCE("notations1", (notations<double, 1>))
MC_INSTANCE("notations3", (notations<double, 3>))
MC_INSTANCE("notations4", (notations<float, 4>))
// numbers of every length
template <class T, std::size_t S> void digits(Ctx& c) {
  static const std::vector<int> L{0, 1, 2, 7, 8, 9, 15, 16, 17, 18, 19, 20, 22, 23, 24, 25, 30, 31, 32, 33, 47, 48, 49, 50, 62, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10000};
  const auto n = std::size_t(c.pick(L));
  const int kind = c.range(0, 5);
  const std::size_t at = c.choose(S);
  const std::string z(n, '0');
  const std::string t = kind == 0 ? z + "17.5" : kind == 1 ? "-" + z + "3" : kind == 2 ? "2.5" + z : kind == 3 ? "0." + z + "25e" + std::to_string(n) : kind == 4 ? "3e" + z + "2" : "+9" + z + "e-" + std::to_string(n);
  const double want = kind == 0 ? 17.5 : kind == 1 ? -3 : kind == 2 ? 2.5 : kind == 3 ? 0.25 : kind == 4 ? 300 : 9;
  std::string s;
  for (std::size_t i = 0; i < S; ++i) s += (i ? " " : "") + (i == at ? t : std::to_string(int(i) * 7 - 9));
  if (c.flag()) s = "( " + s + " )";
  const auto check = [&](const vec<T, S>& r) {
    for (std::size_t i = 0; i < S; ++i) CHECK(r[i] == (i == at ? T(want) : T(int(i) * 7 - 9)), "component ", i, " is ", r[i], " with a number of ", t.size(), " characters (kind ", kind, ") at ", at);
  };
  const auto r = vm::parse<T, S>(s);
  CHECK(r.has_value(), "did not parse a text with a number of ", t.size(), " characters (kind ", kind, ")");
  check(*r);
  std::vector<vec<T, S>> all;
  vm::parse_all<T, S>(s + "; " + s, std::back_inserter(all));
  CHECK(all.size() == 2, "parsed ", all.size(), " instead of 2 items with a number of ", t.size(), " characters (kind ", kind, ")");
  for (auto& x : all) check(x);
  c.op(2);
  c.state(n, kind, at, s.size());
}
MC_INSTANCE("digits1", (digits<double, 1>))
MC_INSTANCE("digits2", (digits<float, 2>))
MC_INSTANCE("digits3", (digits<double, 3>))
// long runs of blanks and brackets, anywhere
template <class T, std::size_t S> void runs(Ctx& c) {
  static const std::vector<int> L{0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1000, 5000};
  static const std::vector<const char*> P{" ", "\t", "\n", "\r", "(", ")", "()", ") (", " \t\n\r"};
  const uint32_t at = c.choose(S + 1);
  const int len = c.pick(L);
  const char* p = c.pick(P);
  std::string s;
  for (std::size_t i = 0; i <= S; ++i) {
    if (i == at)
      for (int k = 0; k < len; ++k) s += p;
    if (i != at || (len == 0 && i > 0)) s += i ? " " : "";
    if (i < S) s += std::to_string(int(i) * 7 - 9);
  }
  const auto r = vm::parse<T, S>(s);
  CHECK(r.has_value(), "did not parse a text with ", len, " times ", q(p), " before number ", at);
  for (std::size_t i = 0; i < S; ++i) CHECK((*r)[i] == T(int(i) * 7 - 9), "component ", i, " is ", (*r)[i], " with ", len, " times ", q(p), " before number ", at);
  c.op();
  c.state(len, at, s.size());
}
MC_INSTANCE("runs1", (runs<float, 1>))
MC_INSTANCE("runs3", (runs<double, 3>))
template <class T, std::size_t S> void list_long(Ctx& c) {
  static const std::vector<int> N{4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 255, 256, 257, 1000};
  static const std::vector<const char*> SEP{" ", ", ", ";", ",", "\n", " ; ", ";;", " ,,  ;; "};
  const int n = c.pick(N), junk = c.range(-1, 2);
  const char* sep = c.pick(SEP);
  const bool br = c.flag();
  const int bad = junk < 0 ? -1 : junk == 0 ? 0 : junk == 1 ? n / 2 : n - 1;
  std::string s;
  std::vector<vec<T, S>> want;
  for (int i = 0; i < n; ++i) {
    if (i) s += sep;
    if (i == bad) {
      s += "asdf";
      continue;
    }
    vec<T, S> v;
    if (br) s += "(";
    for (std::size_t k = 0; k < S; ++k) {
      v[k] = T(i * int(S) + int(k)) / T(4) - T(20);
      s += (k ? " " : "") + txt(v[k], 17);
    }
    if (br) s += ")";
    want.push_back(v);
  }
  std::vector<vec<T, S>> got;
  vm::parse_all<T, S>(s, std::back_inserter(got));
  CHECK(got.size() == want.size(), "parsed ", got.size(), " instead of ", want.size(), " vectors from a list separated by ", q(sep));
  for (std::size_t i = 0; i < got.size(); ++i) CHECK(got[i] == want[i], "vector ", i, " of a list of ", n, " is ", got[i], ", should be ", want[i]);
  c.op();
  c.state(n, bad, br, s.size());
}
MC_INSTANCE("list_long1", (list_long<double, 1>))
MC_INSTANCE("list_long2", (list_long<float, 2>))
MC_INSTANCE("list_long3", (list_long<double, 3>))
// every way of formatting numbers applies to all components
template <class T, std::size_t S> void formats(Ctx& c) {
  const auto v = any<T, S>(c);
  const int prec = c.range(0, 20);
  const uint32_t f = c.choose(4), sp = c.choose(2);
  const auto set = [&](std::ostream& o) {
    o.precision(prec);
    if (f == 1) o.setf(std::ios::fixed, std::ios::floatfield);
    if (f == 2) o.setf(std::ios::scientific, std::ios::floatfield);
    if (f == 3) o.setf(std::ios::showpoint);
    if (sp) o.setf(std::ios::showpos);
  };
  std::ostringstream g, w;
  set(g);
  set(w);
  g << v;
  for (std::size_t i = 0; i < S; ++i) w << (i ? " " : "") << v[i];
  CHECK(g.str() == w.str(), "printed ", q(g.str()), ", should be ", q(w.str()));
  c.op();
  c.state(v, prec, f, sp);
}
MC_INSTANCE("formats2", (formats<double, 2>), 2, 2)
MC_INSTANCE("formats5", (formats<float, 5>), 1, 2)
template <std::size_t S> void print_int(Ctx& c) {
  static const std::vector<int> A{0, -1, 7, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), 1000000};
  vec<int, S> v;
  for (std::size_t i = 0; i < S; ++i) v[i] = c.pick(A);
  const std::string s = shown(v, 6);
  CHECK(s == comps(v, S, 6), "printed ", q(s), ", should be ", q(comps(v, S, 6)));
  const auto r = vm::parse<int, S>(s);
  CHECK(r.has_value() && *r == v, "round trip of ", q(s), " fails");
  c.op(2);
  c.state(v);
}
MC_INSTANCE("print_int2", (print_int<2>))
MC_INSTANCE("print_int4", (print_int<4>))
