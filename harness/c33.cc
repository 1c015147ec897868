// What a stream receives when a geometry type is printed.
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1   // leave the stream's functions out of line
#include <v.hh>
#include <spec.hh>
#include <cstring>
#include <string>
#include <ostream>
#include <dune/geometry/type.hh>
using namespace Dune;

// a stream whose output functions (see below) append to a text; no formatting state is set
static char text[256]; static long len = 0;
static void put(const char* s, long n) { for (long i = 0; i < n; ++i) { v_true(len < 255, "printed text is short"); text[len++] = s[i]; } text[len] = 0; }
static void number(long n) { char b[24]; int k = 24; const bool neg = n < 0; unsigned long u = neg ? 0ul - (unsigned long)n : n; do { b[--k] = char('0' + u % 10); u /= 10; } while (u); if (neg) b[--k] = '-'; put(b + k, 24 - k); }
extern "C" {
  void* o_ins(void* s, const char* t, long n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
  void* o_ins(void* s, const char* t, long n) { put(t, n); return s; }
  void* o_i(void* s, int n) asm("_ZNSolsEi");
  void* o_i(void* s, int n) { number(n); return s; }
  void* o_s(void* s, short n) asm("_ZNSolsEs");
  void* o_s(void* s, short n) { number(n); return s; }
  void* o_l(void* s, long n) asm("_ZNSo9_M_insertIlEERSoT_");
  void* o_l(void* s, long n) { number(n); return s; }
  void* o_m(void* s, unsigned long n) asm("_ZNSo9_M_insertImEERSoT_");
  void* o_m(void* s, unsigned long n) { number((long)n); return s; }
  void* o_b(void* s, bool n) asm("_ZNSo9_M_insertIbEERSoT_");
  void* o_b(void* s, bool n) { number(n); return s; }
  void* o_x(void* s, long long n) asm("_ZNSo9_M_insertIxEERSoT_");
  void* o_x(void* s, long long n) { number(n); return s; }
  void* o_y(void* s, unsigned long long n) asm("_ZNSo9_M_insertIyEERSoT_");
  void* o_y(void* s, unsigned long long n) { number((long)n); return s; }
  void* o_p(void* s, char c) asm("_ZNSo3putEc");
  void* o_p(void* s, char c) { put(&c, 1); return s; }
  void* o_w(void* s, const char* t, long n) asm("_ZNSo5writeEPKcl");
  void* o_w(void* s, const char* t, long n) { put(t, n); return s; }
  void* o_f(void* s) asm("_ZNSo5flushEv");
  void* o_f(void* s) { return s; }
}
// layout of a stream object: table pointer, then the formatting base at offset 8
static long table[4] = { 8, 0, 0, 0 };
struct Stream { long* vptr; long base[64]; };
struct Out
{
  Stream s;
  Out() { std::memset(&s, 0, sizeof s); s.vptr = table + 3; }
  std::string print(const GeometryType& t) {
    len = 0; text[0] = 0;
    std::ostream& o = *reinterpret_cast<std::ostream*>(&s); std::ostream& r = (o << t);
    v_true((void*)&r == (void*)&s, "printing returns the stream");
    return std::string(text, len);
  }
};
static bool parse(const std::string& s, std::string& name, int& dim)   // "(name, dim)"
{
  const auto c = s.rfind(", "); if (s.size() < 5 || s[0] != '(' || s[s.size()-1] != ')' || c == std::string::npos) return false;
  name = s.substr(1, c - 1); dim = 0;
  for (auto i = c + 2; i + 1 < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; dim = 10*dim + (s[i] - '0'); }
  return c + 3 < s.size();
}
static std::string expected(unsigned id, int dim)
{
  id &= ~1u;
  if (id == 0u) return "simplex";
  if (id == (((1u << dim) - 1) & ~1u)) return "cube";
  if (dim == 3 && id == 2u) return "pyramid";
  if (dim == 3 && id == 4u) return "prism";
  return "other";
}
CHK(names) {
  Out out;
  for (int dim = 0; dim <= 6; ++dim) for (unsigned id = 0; id < spec::ntopo(dim); ++id) {
    v_label("dim", dim); v_label("shape", id);
    const std::string s = out.print(GeometryType(id, dim)); std::string name; int d = -1;
    v_true(parse(s, name, d), "printed text is a name and a dimension in parentheses");
    v_eqi(d, dim, "printed dimension");
    const std::string e = expected(id, dim);
    v_true(name.compare(0, e.size(), e) == 0, "printed name of the shape");
    v_true(e == "other" || name == e, "printed name of a named shape is the plain name");
  }
}
CHK(none) {
  Out out;
  for (int dim = 0; dim <= 11; ++dim) {
    v_label("dim", dim);
    const std::string s = out.print(GeometryTypes::none(dim)); std::string name; int d = -1;
    v_true(parse(s, name, d), "printed text is a name and a dimension in parentheses");
    v_eqi(d, dim, "printed dimension"); v_true(name == "none", "printed name of the shapeless type");
  }
}
CHK(distinct) {
  Out out; std::string t[80]; int n = 0;
  for (int dim = 0; dim <= 5; ++dim) { for (unsigned id = 0; id < spec::ntopo(dim); id += (dim ? 2 : 1)) t[n++] = out.print(GeometryType(id, dim)); t[n++] = out.print(GeometryTypes::none(dim)); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) v_true(t[i] != t[j], "different types print different texts");
}
