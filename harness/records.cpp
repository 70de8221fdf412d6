// C27: debug records of many designs, names and sequences of records, read back
// from this program's own object sections by the documented layout.
// -DPART=0: every structure, type and order, and every length of name
// -DPART=1: every sequence of up to three records of six kinds (-DSEQ_LO -DSEQ_HI)
// records2.cpp includes this file again as a second translation unit.
#ifndef SECOND_UNIT
#define SECOND_UNIT 0
#endif
#include "verif.h"
#include <algorithm>
#include <boost/preprocessor.hpp>
#include <elf.h>
#include <link.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/debug_filter_coefs.h>
#include <embedded/signal/filter.h>
#include <fstream>
#include <iterator>
#include <map>
using namespace verif;
namespace es = embedded::signal;

// ------------------------------------------------------------ what should be there
struct Rec {
  std::string section, name;
  int structure, type; // sections 0, polynomials 1; float 0, double 1, long double 2
  std::vector<std::string> values; // hexadecimal floating point
  bool any_name;
  std::string str() const {
    std::string s = strf("structure %d type %d values", structure, type);
    for (auto const& v : values) s += " " + v;
    return s;
  }
};
std::vector<Rec>& expected();

template <class F> struct Type;
template <> struct Type<float> { enum { code = 0 }; };
template <> struct Type<double> { enum { code = 1 }; };
template <> struct Type<long double> { enum { code = 2 }; };

static std::string hex(long double v) { return strf("%La", v); }
static std::string clip(char const* name, std::size_t n) {
  std::string s(name, std::min<std::size_t>(n, 118));
  while (!s.empty() && s[s.size() - 1] == 0) s.erase(s.size() - 1);
  return s;
}
struct Register {
  template <class F, std::size_t N, std::size_t S> Register(es::sos_design<F, N> const& d, char const (&name)[S], char const* section, bool any = false) {
    Rec r{section, clip(name, S), 0, Type<F>::code, {}, any};
    for (std::size_t i = 0; i < d.sos().size(); ++i) {
      auto const b = d.sos()[i].b();
      auto const a = d.sos()[i].a();
      for (int k = 0; k < 3; ++k) r.values.push_back(hex(b[k]));
      for (int k = 1; k < 3; ++k) r.values.push_back(hex(a[k]));
    }
    expected().push_back(r);
  }
  template <class F, std::size_t N, std::size_t S> Register(es::poly_design<F, N> const& d, char const (&name)[S], char const* section, bool any = false) {
    Rec r{section, clip(name, S), 1, Type<F>::code, {}, any};
    auto const b = d.b();
    auto const a = d.a();
    for (std::size_t k = 0; k <= N; ++k) r.values.push_back(hex(b[k]));
    for (std::size_t k = 0; k <= N; ++k) r.values.push_back(hex(a[k]));
    expected().push_back(r);
  }
};
#define KEEP(design, name, section, ...) static Register BOOST_PP_CAT(keep_, __COUNTER__)(design, name, section, ##__VA_ARGS__);
#define DEFAULT_SECTION ".libemb_filter_coefs"

// names of every length
template <std::size_t... I> struct Seq {};
template <std::size_t N, std::size_t... I> struct Make : Make<N - 1, N - 1, I...> {};
template <std::size_t... I> struct Make<0, I...> { typedef Seq<I...> type; };
template <class S> struct Text;
template <std::size_t... I> struct Text<Seq<I...>> {
  static constexpr char terminated[sizeof...(I) + 1] = {static_cast<char>('!' + (I * 7 + I / 90) % 90)..., 0};
  static constexpr char bare[sizeof...(I) + 1] = {static_cast<char>('!' + (I * 11 + 5) % 90)..., 'z'}; // no terminating zero
};
template <std::size_t... I> constexpr char Text<Seq<I...>>::terminated[];
template <std::size_t... I> constexpr char Text<Seq<I...>>::bare[];
template <std::size_t N> struct OfLength : Text<typename Make<N>::type> {};

#if SECOND_UNIT
namespace {
#endif

#if PART == 0
#define DESIGNS(z, n, F)                                                                                                      \
  constexpr auto BOOST_PP_CAT(base_##F, n) = es::iirfilter<PF_##F>(1000).lowpass(es::butterworth<n>(), 40 + 23 * n);          \
  constexpr auto BOOST_PP_CAT(high_##F, n) = es::iirfilter<PF_##F>(8000).highpass(es::chebyshev1<n, PF_##F>(PF_##F(1)), 900); \
  constexpr auto BOOST_PP_CAT(poly_##F, n) = BOOST_PP_CAT(base_##F, n).poly<T_##F>();                                         \
  constexpr auto BOOST_PP_CAT(sos_##F, n) = BOOST_PP_CAT(base_##F, n).sos<T_##F>();                                           \
  constexpr auto BOOST_PP_CAT(even_##F, n) = BOOST_PP_CAT(high_##F, n).sos<T_##F>(es::sos_gain::distribute);                  \
  constexpr auto BOOST_PP_CAT(hp_##F, n) = BOOST_PP_CAT(high_##F, n).poly<T_##F>();
#define RECORD(d, n)                                                           \
  LIBEMB_DEBUG_FILTER_COEFS_NAME(d, n);                                        \
  KEEP(d, n, DEFAULT_SECTION)
#define RECORDS(z, n, F)                                                                                       \
  RECORD(BOOST_PP_CAT(poly_##F, n), "poly " #F " " BOOST_PP_STRINGIZE(n))                                      \
  RECORD(BOOST_PP_CAT(sos_##F, n), "sos " #F " " BOOST_PP_STRINGIZE(n))                                        \
  RECORD(BOOST_PP_CAT(even_##F, n), "even " #F " " BOOST_PP_STRINGIZE(n))                                      \
  RECORD(BOOST_PP_CAT(hp_##F, n), "hp " #F " " BOOST_PP_STRINGIZE(n))
typedef float T_f;
typedef double T_d;
typedef long double T_l;
typedef double PF_f;
typedef double PF_d;
typedef long double PF_l;
#if !SECOND_UNIT
BOOST_PP_REPEAT_FROM_TO(1, BOOST_PP_INC(ORDER_HI), DESIGNS, f)
BOOST_PP_REPEAT_FROM_TO(1, BOOST_PP_INC(ORDER_HI), DESIGNS, d)
#ifndef SCRIPT
BOOST_PP_REPEAT_FROM_TO(1, BOOST_PP_INC(ORDER_HI), DESIGNS, l)
#endif
BOOST_PP_REPEAT_FROM_TO(1, BOOST_PP_INC(ORDER_HI), RECORDS, f)
BOOST_PP_REPEAT_FROM_TO(1, BOOST_PP_INC(ORDER_HI), RECORDS, d)
#ifndef SCRIPT
BOOST_PP_REPEAT_FROM_TO(1, BOOST_PP_INC(ORDER_HI), RECORDS, l)
#endif
// lengths that need both bytes
constexpr auto vast = es::iirfilter<double>(1000).lowpass(es::butterworth<32>(), 250);
#ifndef SCRIPT
constexpr auto vast_sos = vast.sos<long double>();
RECORD(vast_sos, "vast sections")
#endif
constexpr auto vast_poly = vast.poly<double>();
RECORD(vast_poly, "vast polynomials")
#else
// the same names of designs as in the first unit, other contents
BOOST_PP_REPEAT_FROM_TO(1, 4, DESIGNS, f)
BOOST_PP_REPEAT_FROM_TO(1, 4, RECORDS, f)
#endif

#define LENGTHS(z, n, d)                                                       \
  LIBEMB_DEBUG_FILTER_COEFS_NAME(d, OfLength<n>::terminated);                  \
  KEEP(d, OfLength<n>::terminated, DEFAULT_SECTION)                            \
  LIBEMB_DEBUG_FILTER_COEFS_NAME(d, OfLength<n>::bare);                        \
  KEEP(d, OfLength<n>::bare, DEFAULT_SECTION)
#if !SECOND_UNIT
BOOST_PP_REPEAT_FROM_TO(0, 140, LENGTHS, sos_f1)
LENGTHS(~, 200, poly_d2)
LENGTHS(~, 255, poly_d2)
LENGTHS(~, 256, poly_f2)
LENGTHS(~, 257, poly_d2)
LENGTHS(~, 512, sos_d3)
LENGTHS(~, 630, sos_d3)
RECORD(sos_d1, "FILT")
RECORD(sos_d1, "xFILT FILTFILT")
RECORD(sos_d1, "tail\0\0\0")
RECORD(sos_d1, "caf\xc3\xa9")
#ifndef SCRIPT
RECORD(sos_d1, "inner\0zero")
RECORD(sos_d1, "\xff\xfe\x80\x7f\x01")
#endif
// the same design and name twice, and names of designs that continue one another
RECORD(sos_d1, "again")
RECORD(sos_d1, "again")
constexpr auto d = base_d1.sos<double>();
constexpr auto d1 = base_d2.sos<double>();
constexpr auto d2 = base_d3.sos<double>();
RECORD(d, "d")
RECORD(d1, "d1")
RECORD(d2, "d2")
#endif
namespace nested {
constexpr auto d = base_f1.sos<float>();
constexpr auto e = base_f2.poly<float>();
LIBEMB_DEBUG_FILTER_COEFS_NAME(d, "nested d");
KEEP(d, "nested d", DEFAULT_SECTION)
#ifndef SCRIPT
LIBEMB_DEBUG_FILTER_COEFS(e);
KEEP(e, "e", DEFAULT_SECTION, true)
#endif
} // namespace nested
#endif

#if PART == 1
constexpr auto b1 = es::iirfilter<double>(1000).lowpass(es::butterworth<1>(), 40);
constexpr auto b2 = es::iirfilter<double>(1000).highpass(es::butterworth<2>(), 150);
constexpr auto b5 = es::iirfilter<long double>(1000).highpass(es::chebyshev2<5, long double>(20.0L), 150);
constexpr auto kind_0 = b1.sos<float>();
constexpr auto kind_1 = b1.poly<float>();
constexpr auto kind_2 = b2.sos<double>(es::sos_gain::distribute);
constexpr auto kind_3 = b2.poly<double>();
constexpr auto kind_4 = b5.sos<long double>();
constexpr auto kind_5 = b5.poly<long double>();
#define PLACE(which, text)                                                     \
  LIBEMB_DEBUG_FILTER_COEFS_NAME(BOOST_PP_CAT(kind_, which), text);            \
  KEEP(BOOST_PP_CAT(kind_, which), text, LIBEMB_DEBUG_FILTER_COEFS_SECTION)
#define BOOST_PP_ITERATION_PARAMS_1 (3, (0, 257, "records_seq.h"))
#include BOOST_PP_ITERATE()
#undef LIBEMB_DEBUG_FILTER_COEFS_SECTION
#define LIBEMB_DEBUG_FILTER_COEFS_SECTION ".both_units"
PLACE(0, "zero")
PLACE(3, "three")
PLACE(4, "four")
#endif

#if SECOND_UNIT
} // namespace
#else

std::vector<Rec>& expected() {
  static std::vector<Rec> v;
  return v;
}

// ------------------------------------------------------------ what is there
static std::map<std::string, std::string> sections() {
  std::ifstream f("/proc/self/exe", std::ios::binary);
  std::string const all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  std::map<std::string, std::string> m;
  ElfW(Ehdr) h;
  if (all.size() < sizeof h) exit(3);
  memcpy(&h, all.data(), sizeof h);
  std::vector<ElfW(Shdr)> s(h.e_shnum);
  memcpy(s.data(), all.data() + h.e_shoff, sizeof(ElfW(Shdr)) * h.e_shnum);
  for (auto const& x : s)
    if (x.sh_type == SHT_PROGBITS) m[all.data() + s[h.e_shstrndx].sh_offset + x.sh_name] += all.substr(x.sh_offset, x.sh_size);
  return m;
}
template <class F> static std::string value(char const* p) {
  F f = 0;
  memcpy(&f, p, sizeof f);
  return hex(f);
}
static std::vector<Rec> parse(std::string const& section, std::string data) {
  std::vector<Rec> out;
  while (!data.empty()) {
    if (data.size() < 128 || data.compare(0, 4, "FILT")) {
      V_FAIL("no record", "section %s: after %zu records %zu bytes that are no record", section.c_str(), out.size(), data.size());
      break;
    }
    uint16_t length;
    memcpy(&length, &data[4], 2);
    Rec r{section, "", data[7], data[8], {}, false};
    if (data[6] != 0) V_FAIL("version", "section %s: version %d", section.c_str(), data[6]);
    if (length < 128 || length > data.size() || r.type < 0 || r.type > 2) {
      V_FAIL("length", "section %s: record %zu of type %d and length %u with %zu bytes left", section.c_str(), out.size(), r.type, length, data.size());
      break;
    }
    if (data[127] != 0) V_FAIL("terminator", "section %s: a name without terminating zero", section.c_str());
    r.name = clip(&data[9], 119);
    std::size_t const size = r.type == 0 ? sizeof(float) : r.type == 1 ? sizeof(double) : sizeof(long double);
    if ((length - 128) % size) V_FAIL("length", "section %s: length %u is no multiple of the size of its values", section.c_str(), length);
    for (std::size_t at = 128; at + size <= length; at += size)
      r.values.push_back(r.type == 0 ? value<float>(&data[at]) : r.type == 1 ? value<double>(&data[at]) : value<long double>(&data[at]));
    out.push_back(r);
    data.erase(0, length);
    std::size_t const next = data.find("FILT");
    if (next == std::string::npos) {
      if (data.find_first_not_of('\0') == std::string::npos) break;
    } else
      data.erase(0, next);
  }
  return out;
}

static std::string text(std::string const& s) {
  std::string o;
  for (char c : s) o += c < 32 || c > 126 ? strf("\\x%02x", c & 255) : std::string(1, c);
  return o;
}

#ifdef SCRIPT
// the records by the project's own script (which knows float and double)
static void script(std::vector<Rec> const& want) {
  std::string const out = R().out + ".txt";
  int const rc = system(("PYTHONDONTWRITEBYTECODE=1 PYTHONIOENCODING=utf-8 PYTHONPATH=" PYSTUB " python3 " SCRIPT " /proc/" + strf("%d", int(getpid())) + "/exe > " + out + " 2>&1").c_str());
  std::ifstream f(out.c_str());
  std::string line, all;
  std::vector<std::string> got, exp;
  std::string cur;
  while (std::getline(f, line)) {
    all += line + "\n";
    std::size_t const eq = line.find(" = ");
    if (line[0] != ' ') {
      if (!cur.empty()) got.push_back(cur);
      cur = line;
    } else if (eq != std::string::npos)
      cur += " | " + line.substr(line.find_first_not_of(' '), eq - line.find_first_not_of(' ')) + "=" + hex(strtod(line.c_str() + eq + 3, nullptr));
  }
  got.push_back(cur);
  if (rc != 0) {
    if (all.find("ModuleNotFoundError") != std::string::npos || all.find("ImportError") != std::string::npos) exit(3);
    V_FAIL("script", "the parser script fails: %s", all.substr(all.size() > 600 ? all.size() - 600 : 0).c_str());
    return;
  }
  static char const* const C[] = {"b0", "b1", "b2", "a1", "a2"};
  for (auto const& r : want) {
    std::string s = r.name + ":";
    for (std::size_t i = 0; i < r.values.size(); ++i)
      s += " | " + (r.structure == 0 ? std::string(C[i % 5]) : strf("%c[%zu]", i < r.values.size() / 2 ? 'b' : 'a', i % (r.values.size() / 2))) + "=" + r.values[i];
    exp.push_back(s);
    R().evaluations++;
  }
  std::sort(got.begin(), got.end());
  std::sort(exp.begin(), exp.end());
  for (std::size_t i = 0; i < std::max(got.size(), exp.size()); ++i)
    if (i >= got.size() || i >= exp.size() || got[i] != exp[i]) {
      V_FAIL("script", "the parser script says %s instead of %s", i < got.size() ? got[i].c_str() : "nothing", i < exp.size() ? exp[i].c_str() : "nothing");
      break;
    }
}
#endif

int main(int argc, char** argv) {
  init(argc, argv);
  auto const have = sections();
  std::map<std::string, std::vector<Rec>> want, got;
  for (auto const& r : expected()) want[r.section].push_back(r);
  for (auto const& w : want) {
    auto const it = have.find(w.first);
    if (it == have.end()) {
      V_FAIL("no section", "there is no section %s", w.first.c_str());
      continue;
    }
    std::vector<Rec> g = parse(w.first, it->second), e = w.second;
    R().transitions += e.size();
    R().evaluations += e.size();
    R().distinct_n++;
    if (g.size() != e.size()) V_FAIL("number", "section %s has %zu records instead of %zu", w.first.c_str(), g.size(), e.size());
    // records may come in any order
    for (auto const& x : e) {
      auto const at = std::find_if(g.begin(), g.end(), [&](Rec const& y) { return x.str() == y.str() && (x.any_name ? y.name.compare(0, x.name.size(), x.name) == 0 : y.name == x.name); });
      if (at == g.end()) {
        std::string near;
        for (auto const& y : g)
          if (y.name == x.name || (near.empty() && y.str() == x.str())) near = "'" + text(y.name) + "' " + y.str();
        V_FAIL("record", "section %s: no record named '%s' with %s; there is %s", w.first.c_str(), text(x.name).c_str(), x.str().c_str(), near.c_str());
      } else
        g.erase(at);
    }
    if (!g.empty()) V_FAIL("more", "section %s: record '%s' which nobody asked for", w.first.c_str(), text(g[0].name).c_str());
    R().sample(strf("section %s: %zu records", w.first.c_str(), e.size()));
  }
#ifdef SCRIPT
  script(want[DEFAULT_SECTION]);
#endif
  R().finish();
}
#endif
