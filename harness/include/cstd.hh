// Bodies of C library functions, so that the analysis can look into them.
#ifndef VERIF_CSTD_HH
#define VERIF_CSTD_HH
#include <cctype>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#undef isdigit
#undef isspace
#undef isalpha
#undef isalnum
#undef tolower
#undef toupper
extern "C" {
  static int v_errno;
  __attribute__((used)) int* __errno_location() noexcept { return &v_errno; }
  __attribute__((used)) int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
  __attribute__((used)) int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
  __attribute__((used)) int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
  __attribute__((used)) int isalnum(int c) noexcept { return isdigit(c) || isalpha(c); }
  __attribute__((used)) int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
  __attribute__((used)) int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
  static unsigned long v_digits(const char* s, char** end, bool& neg, bool& over)
  {
    const char* p = s; while (isspace(*p)) ++p;
    neg = *p == '-'; over = false; if (*p == '-' || *p == '+') ++p;
    if (!isdigit(*p)) { if (end) *end = const_cast<char*>(s); return 0; }
    unsigned long v = 0;
    for (; isdigit(*p); ++p) { const unsigned long d = *p - '0'; if (v > (~0ul - d)/10) over = true; else v = 10*v + d; }
    if (end) *end = const_cast<char*>(p);
    return v;
  }
  __attribute__((used)) unsigned long strtoul(const char* s, char** end, int) noexcept
  { bool neg, over; const unsigned long v = v_digits(s, end, neg, over); if (over) { v_errno = ERANGE; return ~0ul; } return neg ? -v : v; }
  __attribute__((used)) unsigned long long strtoull(const char* s, char** end, int) noexcept
  { bool neg, over; const unsigned long v = v_digits(s, end, neg, over); if (over) { v_errno = ERANGE; return ~0ul; } return neg ? -v : v; }
  __attribute__((used)) long strtol(const char* s, char** end, int) noexcept
  {
    bool neg, over; const unsigned long v = v_digits(s, end, neg, over), m = ~0ul >> 1;
    if (over || v > m + neg) { v_errno = ERANGE; return neg ? -long(m) - 1 : long(m); }
    return neg ? -v : v;
  }
  __attribute__((used)) long long strtoll(const char* s, char** end, int) noexcept
  {
    bool neg, over; const unsigned long v = v_digits(s, end, neg, over), m = ~0ul >> 1;
    if (over || v > m + neg) { v_errno = ERANGE; return neg ? -long(m) - 1 : long(m); }
    return neg ? -v : v;
  }
  __attribute__((used)) double ldexp(double x, int e) noexcept { for (; e > 0; --e) x *= 2; for (; e < 0; ++e) x /= 2; return x; }
  __attribute__((used)) double scalbn(double x, int e) noexcept { for (; e > 0; --e) x *= 2; for (; e < 0; ++e) x /= 2; return x; }
  __attribute__((used)) long lround(double x) noexcept { return x < 0 ? -long(0.5 - x) : long(x + 0.5); }
  __attribute__((used)) double fmod(double x, double y) noexcept { return x - y*double(long(x/y)); }
  __attribute__((used)) double fdim(double x, double y) noexcept { return x > y ? x - y : 0; }
  __attribute__((used)) div_t div(int n, int d) noexcept { div_t r; r.quot = n/d; r.rem = n%d; return r; }
  __attribute__((used)) ldiv_t ldiv(long n, long d) noexcept { ldiv_t r; r.quot = n/d; r.rem = n%d; return r; }
  __attribute__((used)) char* strcpy(char* d, const char* s) noexcept { size_t i = 0; for (; s[i]; ++i) d[i] = s[i]; d[i] = 0; return d; }
  __attribute__((used)) char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
  __attribute__((used)) int strncmp(const char* a, const char* b, size_t n) noexcept { for (size_t i = 0; i < n; ++i) { if (a[i] != b[i]) return (unsigned char) a[i] < (unsigned char) b[i] ? -1 : 1; if (!a[i]) break; } return 0; }
}
#endif
