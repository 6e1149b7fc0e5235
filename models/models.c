/* C library models executed by the symbolic engine. */
#define _GNU_SOURCE
#define __NO_CTYPE
#include "vf.h"
#include <ctype.h>
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
extern const char *vf_envn[16], *vf_envv[16]; extern int vf_envc;
static int the_errno;
int *__errno_location(void) { return &the_errno; }

/* ---- ctype ("C" locale) */
#define IN(c, a, b) ((unsigned)(c) - (unsigned)(a) <= (unsigned)((b) - (a)))
int isdigit(int c) { return IN(c, '0', '9'); }
int isupper(int c) { return IN(c, 'A', 'Z'); }
int islower(int c) { return IN(c, 'a', 'z'); }
int isalpha(int c) { return IN(c, 'A', 'Z') | IN(c, 'a', 'z'); }
int isalnum(int c) { return IN(c, 'A', 'Z') | IN(c, 'a', 'z') | IN(c, '0', '9'); }
int isxdigit(int c) { return IN(c, 'A', 'F') | IN(c, 'a', 'f') | IN(c, '0', '9'); }
int isspace(int c) { return (c == ' ') | IN(c, 9, 13); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isprint(int c) { return IN(c, 32, 126); }
int isgraph(int c) { return IN(c, 33, 126); }
int iscntrl(int c) { return IN(c, 0, 31) | (c == 127); }
int ispunct(int c) { return IN(c, 33, 126) & !isalnum(c); }
int tolower(int c) { return IN(c, 'A', 'Z') ? c + 32 : c; }
int toupper(int c) { return IN(c, 'a', 'z') ? c - 32 : c; }

/* ---- strings */
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
  for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return (int)x - (int)y; if (!x) return 0; }
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) { unsigned char x = *a, y = *b; if (x != y) return (int)x - (int)y; if (!x) return 0; }
  return 0;
}
int strcasecmp(const char *a, const char *b) {
  for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; }
}
int strncasecmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; }
  return 0;
}
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) {
  size_t k = strlen(n);
  if (!k) return (char *)h;
  for (; *h; h++) if (strncmp(h, n, k) == 0) return (char *)h;
  return NULL;
}
size_t strcspn(const char *s, const char *set) { size_t n = 0; for (; s[n]; n++) for (const char *q = set; *q; q++) if (*q == s[n]) return n; return n; }
size_t strspn(const char *s, const char *set) { size_t n = 0; for (; s[n]; n++) { bool in = false; for (const char *q = set; *q; q++) in |= *q == s[n]; if (!in) return n; } return n; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *)s : NULL; }
char *strtok_r(char *s, const char *d, char **sv) {
  if (!s) s = *sv;
  if (!s) return NULL;
  s += strspn(s, d);
  if (!*s) { *sv = s; return NULL; }
  char *e = s + strcspn(s, d);
  if (*e) *e++ = 0;
  *sv = e;
  return s;
}
static char *tok_sv;
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tok_sv); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return NULL; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = NULL; return s; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return NULL; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x - *y; return 0; }
void *memcpy(void *d, const void *s, size_t n) { __builtin_memcpy(d, s, n); return d; }
void *memmove(void *d, const void *s, size_t n) { __builtin_memmove(d, s, n); return d; }
void *memset(void *d, int c, size_t n) { __builtin_memset(d, c, n); return d; }
void *mempcpy(void *d, const void *s, size_t n) { __builtin_memcpy(d, s, n); return (char *)d + n; }
void *memccpy(void *d, const void *s, int c, size_t n) { for (size_t i = 0; i < n; i++) if ((((char *)d)[i] = ((const char *)s)[i]) == (char)c) return (char *)d + i + 1; return NULL; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *s = p; while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n); return NULL; }
void *rawmemchr(const void *p, int c) { const unsigned char *s = p; while (*s != (unsigned char)c) s++; return (void *)s; }
void *memmem(const void *h, size_t a, const void *n, size_t b) { for (size_t i = 0; i + b <= a; i++) if (memcmp((const char *)h + i, n, b) == 0) return (char *)h + i; return NULL; }
void bzero(void *d, size_t n) { __builtin_memset(d, 0, n); }
void explicit_bzero(void *d, size_t n) { __builtin_memset(d, 0, n); }
char *strcasestr(const char *h, const char *n) { size_t k = strlen(n); for (;; h++) { if (strncasecmp(h, n, k) == 0) return (char *)h; if (!*h) return NULL; } }
char *index(const char *s, int c) { return strchr(s, c); }
char *rindex(const char *s, int c) { return strrchr(s, c); }
char *stpncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; char *r = d + i; for (; i < n; i++) d[i] = 0; return r; }
size_t strlcpy(char *d, const char *s, size_t n) { size_t k = strlen(s); if (n) { size_t c = k < n ? k : n - 1; __builtin_memcpy(d, s, c); d[c] = 0; } return k; }
size_t strlcat(char *d, const char *s, size_t n) { size_t a = strnlen(d, n); return a == n ? n + strlen(s) : a + strlcpy(d + a, s, n - a); }
char *strerror(int e) { static char b[] = "Some error"; return b; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; d += strlen(d); while (n-- && *s) *d++ = *s++; *d = 0; return r; }

/* ---- memory, with a failure schedule */
static bool fails(void) { vf_alloc_count++; if (vf_fail_at && vf_alloc_count == vf_fail_at) { vf_alloc_failed = 1; the_errno = ENOMEM; return true; } return false; }
void *malloc(size_t n) { return fails() ? NULL : sx_alloc(n); }
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n) || fails()) return NULL;
  void *p = sx_alloc(n); __builtin_memset(p, 0, n); return p;
}
void free(void *p) { sx_free(p); }
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  size_t o = sx_heap_size(p);
  if (n == 0) { sx_free(p); return NULL; }
  if (fails()) return NULL;
  void *q = sx_alloc(n); __builtin_memcpy(q, p, o < n ? o : n); sx_free(p); return q;
}
void *reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL; return realloc(p, n); }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) __builtin_memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); if (p) { __builtin_memcpy(p, s, n); p[n] = 0; } return p; }

/* ---- numbers */
static const char *num_start(const char *s, int *base, bool *neg) {
  while (isspace((unsigned char)*s)) s++;
  *neg = false;
  if (*s == '-') { *neg = true; s++; } else if (*s == '+') s++;
  if ((*base == 0 || *base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && isxdigit((unsigned char)s[2])) { s += 2; *base = 16; }
  else if (*base == 0) *base = *s == '0' ? 8 : 10;
  return s;
}
static int dig(char c, int base) {
  int d;
  if (base <= 10) return IN(c, '0', '0' + base - 1) ? c - '0' : -1;
  if (IN(c, '0', '9')) d = c - '0'; else if (IN(c, 'a', 'z')) d = c - 'a' + 10; else if (IN(c, 'A', 'Z')) d = c - 'A' + 10; else return -1;
  return d < base ? d : -1;
}
static bool parse_u(const char *s, char **end, int base, unsigned long long *out, bool *neg, bool *over) {
  const char *p = num_start(s, &base, neg), *q = p;
  unsigned long long v = 0; *over = false;
  int d, n = 0;
  while ((base <= 10 ? (IN(*q, '0', '0' + base - 1)) : (dig(*q, base) >= 0))) {
    d = base <= 10 ? *q - '0' : dig(*q, base);
    n++;
    if (n <= (base == 10 ? 19 : 15)) v = v * (unsigned)base + (unsigned)d;
    else if (!*over) {
      unsigned long long t;
      if (__builtin_mul_overflow(v, (unsigned long long)base, &t) || __builtin_add_overflow(t, (unsigned long long)d, &t)) *over = true; else v = t;
    }
    q++;
  }
  if (end) *end = (char *)(n ? q : s);
  *out = v;
  return n > 0;
}
static long long m_ll(const char *s, char **end, int base) {
  unsigned long long v; bool neg, over;
  if (!parse_u(s, end, base, &v, &neg, &over)) return 0;
  if (neg) { if (over || v > 9223372036854775808ull) { the_errno = ERANGE; return LLONG_MIN; } return (long long)(0 - v); }
  if (over || v > 9223372036854775807ull) { the_errno = ERANGE; return LLONG_MAX; }
  return (long long)v;
}
static unsigned long long m_ull(const char *s, char **end, int base) {
  unsigned long long v; bool neg, over;
  if (!parse_u(s, end, base, &v, &neg, &over)) return 0;
  if (over) { the_errno = ERANGE; return ULLONG_MAX; }
  return neg ? 0 - v : v;
}
/* a newer <stdlib.h> maps the names to __isoc23_*; both spellings are defined here */
#define ALIAS(t, id, sym, f) t id(const char *s, char **e, int b) __asm__(sym); t id(const char *s, char **e, int b) { return (t)f(s, e, b); }
ALIAS(long long, mm1, "strtoll", m_ll) ALIAS(long long, mm2, "__isoc23_strtoll", m_ll)
ALIAS(long, mm3, "strtol", m_ll) ALIAS(long, mm4, "__isoc23_strtol", m_ll)
ALIAS(unsigned long long, mm5, "strtoull", m_ull) ALIAS(unsigned long long, mm6, "__isoc23_strtoull", m_ull)
ALIAS(unsigned long, mm7, "strtoul", m_ull) ALIAS(unsigned long, mm8, "__isoc23_strtoul", m_ull)
ALIAS(long, mm9, "strtoimax", m_ll) ALIAS(unsigned long, mm10, "strtoumax", m_ull)
int atoi(const char *s) { return (int)m_ll(s, NULL, 10); }
long atol(const char *s) { return m_ll(s, NULL, 10); }
long long atoll(const char *s) { return m_ll(s, NULL, 10); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
double fabs(double x) { return __builtin_fabs(x); }
float fabsf(float x) { return __builtin_fabsf(x); }
/* beyond 2^52 every double is whole; below it the cast is exact */
static bool whole(double x) { return !(x > -4503599627370496.0 && x < 4503599627370496.0); }
double trunc(double x) { if (whole(x)) return x; return (x < 0 ? -fabs((double)(long long)x) : (double)(long long)x); }
double floor(double x) { if (whole(x)) return x; double t = (double)(long long)x; return t > x ? t - 1 : (t == 0 && x < 0 ? -0.0 : t); }
double ceil(double x) { if (whole(x)) return x; double t = (double)(long long)x; return t < x ? t + 1 : (t == 0 && x < 0 ? -0.0 : t); }
double round(double x) { if (whole(x)) return x; double t = trunc(x), r = x - t; return r >= 0.5 ? t + 1 : r <= -0.5 ? t - 1 : t; }
div_t div(int a, int b) { return (div_t){a / b, a % b}; }
ldiv_t ldiv(long a, long b) { return (ldiv_t){a / b, a % b}; }
lldiv_t lldiv(long long a, long long b) { return (lldiv_t){a / b, a % b}; }
long long llabs(long long x) { return x < 0 ? -x : x; }
static bool starts_ci(const char *s, const char *w) { for (; *w; s++, w++) if (tolower((unsigned char)*s) != *w) return false; return true; }
/* Plain decimals of at most 15 digits are exact: m / 10^k with both operands
   exactly representable and k <= 22, hence correctly rounded.  Anything else
   (exponents, hexadecimal, inf, nan, longer digit strings) is enumerated value
   by value and converted by the C library. */
static bool plain_decimal(const char *s, char **end, bool *neg, unsigned long long *m, int *k) {
  const char *p = s; *neg = false; *m = 0; *k = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '-') { *neg = true; p++; } else if (*p == '+') p++;
  if (tolower((unsigned char)*p) == 'i' || tolower((unsigned char)*p) == 'n') {
    if (starts_ci(p, "inf") || starts_ci(p, "nan")) return false;
    *end = (char *)s; *k = -1; return true;
  }
  if (*p == '0' && (p[1] == 'x' || p[1] == 'X')) return false;
  int nd = 0, tot = 0;
  for (; IN(*p, '0', '9'); p++) { *m = *m * 10 + (unsigned)(*p & 15); tot++; if (++nd > 15) return false; }
  if (*p == '.') {
    const char *dot = p++;
    for (; IN(*p, '0', '9'); p++) { *m = *m * 10 + (unsigned)(*p & 15); (*k)++; tot++; if (++nd > 15) return false; }
    if (!tot) p = dot;
  }
  if (!tot) { *end = (char *)s; *k = -1; return true; }
  if (*p == 'e' || *p == 'E') { const char *q = p + 1; if (*q == '+' || *q == '-') q++; if (IN(*q, '0', '9')) return false; }
  *end = (char *)p;
  return true;
}
static const double P10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15};
double strtod(const char *s, char **end) {
  char *e; bool neg; unsigned long long m; int k;
  if (!plain_decimal(s, &e, &neg, &m, &k)) {
    double r = sx_strtod(s, &e);
    if (end) *end = e;
    if (r == __builtin_inf() || r == -__builtin_inf()) { const char *p = s; while (isspace((unsigned char)*p) || *p == '-' || *p == '+') p++; if (tolower((unsigned char)*p) != 'i') the_errno = ERANGE; }
    return r;
  }
  if (end) *end = e;
  if (k < 0) return 0.0;
  double r = k ? (double)(long long)m / P10[k] : (double)(long long)m;
  return neg ? -r : r;
}
float strtof(const char *s, char **end) {
  char *e; bool neg; unsigned long long m; int k;
  if (!plain_decimal(s, &e, &neg, &m, &k)) { float r = (float)sx_strtof(s, &e); if (end) *end = e; return r; }
  if (end) *end = e;
  if (k < 0) return 0.0f;
  double r = k ? (double)(long long)m / P10[k] : (double)(long long)m; /* double rounding: see DESIGN.md */
  float f = (float)r;
  return neg ? -f : f;
}
/* as a double; up to 15 digits strtod and strtold agree but for quotients next to a midpoint: see DESIGN.md */
__attribute__((used)) double vf_strtold(const char *s, char **end) {
  char *e; bool neg; unsigned long long m; int k;
  if (!plain_decimal(s, &e, &neg, &m, &k)) { double r = sx_strtold(s, &e); if (end) *end = e; return r; }
  return strtod(s, end);
}
double atof(const char *s) { return strtod(s, NULL); }

double fmin(double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
double fmax(double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; }
double copysign(double x, double s) { return (__builtin_signbit(s) != 0) == (__builtin_signbit(x) != 0) ? x : -x; }
#undef isinf
#undef isnan
int isnan(double x) { return x != x; }
int isinf(double x) { return x == __builtin_inf() ? 1 : x == -__builtin_inf() ? -1 : 0; }
int finite(double x) { return x - x == 0; }
int ffs(int x) { for (int i = 0; i < 32; i++) if (((unsigned)x >> i) & 1) return i + 1; return 0; }
int isascii(int c) { return IN(c, 0, 127); }
#undef toascii
int toascii(int c) { return c & 127; }

/* ---- scanning: d i u x (h l ll), f e g (l), s, c, [..], n, %%, widths and * */
static int scan(const char *s, const char *f, va_list ap) {
  const char *p = s; int got = 0;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*p)) p++; continue; }
    if (*f != '%') { if (*p != *f) return *p || got ? got : -1; p++; continue; }
    f++; bool skip = *f == '*'; if (skip) f++; int w = 0, l = 0; while (IN(*f, '0', '9')) w = w * 10 + (*f++ - '0'); for (; *f == 'l' || *f == 'h' || *f == 'z' || *f == 'j'; f++) l += *f == 'h' ? -1 : *f == 'l' ? 1 : 2;
    if (*f != 'c' && *f != '[' && *f != 'n') while (isspace((unsigned char)*p)) p++;
    if (*f == 'n') { *va_arg(ap, int *) = (int)(p - s); continue; }
    if (*f == '%') { if (*p != '%') return got; p++; continue; }
    if (!*p) return got ? got : -1;
    size_t n = strnlen(p, w ? (size_t)w : (size_t)-1); char *e, *b = NULL; const char *q = p; if (w && (*f != 's' && *f != 'c' && *f != '[')) { b = vf_mem(n + 1); memcpy(b, p, n); b[n] = 0; q = b; }
    switch (*f) {
      case 'd': case 'i': case 'u': case 'x': { int base = *f == 'i' ? 0 : *f == 'x' ? 16 : 10; long long v = *f == 'u' || *f == 'x' ? (long long)strtoull(q, &e, base) : strtoll(q, &e, base); if (e == q) return got; p += e - q; if (skip) break; if (l > 0) *va_arg(ap, long long *) = v; else if (l == 0) *va_arg(ap, int *) = (int)v; else if (l == -1) *va_arg(ap, short *) = (short)v; else *va_arg(ap, signed char *) = (signed char)v; got++; break; }
      case 'f': case 'e': case 'g': case 'a': { double v = strtod(q, &e); if (e == q) return got; p += e - q; if (skip) break; if (l > 0) *va_arg(ap, double *) = v; else *va_arg(ap, float *) = (float)v; got++; break; }
      case 'c': { size_t k = w ? (size_t)w : 1; char *d = skip ? NULL : va_arg(ap, char *); if (n < k) return got; if (d) { memcpy(d, p, k); got++; } p += k; break; }
      case 's': case '[': { bool set = *f == '[', no = false; const char *x = f + 1, *y = x; if (set) { if (*x == '^') { no = true; x++; } y = x; if (*y == ']') y++; while (*y && *y != ']') y++; f = y; } char *d = skip ? NULL : va_arg(ap, char *); size_t k = 0;
        for (; p[k] && (!w || k < (size_t)w); k++) { bool in = !isspace((unsigned char)p[k]); if (set) { in = false; for (const char *z = x; z < y; z++) { if (z + 2 < y && z[1] == '-') { in |= IN((unsigned char)p[k], (unsigned char)*z, (unsigned char)z[2]); z += 2; } else in |= *z == p[k]; } in = in != no; } if (!in) break; if (d) d[k] = p[k]; } if (!k) return got; if (d) { d[k] = 0; got++; } p += k; break; }
      default: sx_error("scanf conversion without a model");
    }
  }
  return got;
}
int vsscanf(const char *s, const char *f, va_list ap) { return scan(s, f, ap); }
#undef sscanf
#define SC(N) int N(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }
int sc_(const char *, const char *, ...) __asm__("sscanf"); SC(sc_)
int sc23_(const char *, const char *, ...) __asm__("__isoc23_sscanf"); SC(sc23_)
int sc99_(const char *, const char *, ...) __asm__("__isoc99_sscanf"); SC(sc99_)

/* ---- sorting (insertion sort: stable, same result for a total order) */
void qsort(void *base, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
  char *b = base; char *t = __builtin_alloca(w ? w : 1);
  for (size_t i = 1; i < n; i++) {
    size_t j = i;
    __builtin_memcpy(t, b + i * w, w);
    while (j > 0 && cmp(b + (j - 1) * w, t) > 0) { __builtin_memcpy(b + j * w, b + (j - 1) * w, w); j--; }
    __builtin_memcpy(b + j * w, t, w);
  }
}
void *bsearch(const void *k, const void *base, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
  size_t lo = 0, hi = n;
  while (lo < hi) { size_t mid = (lo + hi) / 2; const char *p = (const char *)base + mid * w; int c = cmp(k, p); if (c == 0) return (void *)p; if (c < 0) hi = mid; else lo = mid + 1; }
  return NULL;
}

/* ---- process */
char *getenv(const char *n) { for (int i = 0; i < vf_envc; i++) if (strcmp(n, vf_envn[i]) == 0) return (char *)vf_envv[i]; return NULL; }
char *secure_getenv(const char *n) { return getenv(n); }
void exit(int code) { if (vf_on_exit) vf_on_exit(code); sx_end(); __builtin_unreachable(); }
void _exit(int code) { exit(code); }
void abort(void) { sx_error("abort"); __builtin_unreachable(); }
void __assert_fail(const char *a, const char *b, unsigned c, const char *d) { sx_error("assertion failed"); __builtin_unreachable(); }

/* ---- output */
static int f_in, f_out, f_err;
FILE *stdin = (FILE *)&f_in, *stdout = (FILE *)&f_out, *stderr = (FILE *)&f_err;
struct sink { char *buf; size_t cap, len; int file; };
static void put1(struct sink *o, char c) {
  if (o->file >= 0) { vf_emit(o->file, c); }
  else if (o->len + 1 < o->cap) o->buf[o->len] = c;
  o->len++;
}
static void putstr(struct sink *o, const char *s, int prec, int width, bool left) {
  if (!s) s = "(null)";
  if (o->file >= 0 && !vf_sinking()) { if (prec) sx_readable(s, 1); return; }
  int n = 0; while ((prec < 0 || n < prec) && s[n]) n++;
  if (!left) for (int i = n; i < width; i++) put1(o, ' ');
  for (int i = 0; i < n; i++) put1(o, s[i]);
  if (left) for (int i = n; i < width; i++) put1(o, ' ');
}
static void fmt(struct sink *o, const char *f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { put1(o, *f); continue; }
    f++;
    bool left = false, zero = false, plus = false, space = false, alt = false; int width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
    if (*f == '*') { width = (int)sx_conc((uint64_t)(int64_t)va_arg(ap, int)); if (width < 0) { left = true; width = -width; } f++; }
    else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = (int)sx_conc((uint64_t)(int64_t)va_arg(ap, int)); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'h') lng = -1; else break; }
    char tmp[72]; int n = 0;
    switch (*f) {
      case '%': put1(o, '%'); break;
      case 'c': { int c = va_arg(ap, int); if (!left) for (int i = 1; i < width; i++) put1(o, ' '); put1(o, (char)c); if (left) for (int i = 1; i < width; i++) put1(o, ' '); break; }
      case 's': { char *s = va_arg(ap, char *); putstr(o, s, prec, width, left); break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        bool sg = *f == 'd' || *f == 'i', neg = false; unsigned long long v;
        unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
        if (*f == 'p') v = (unsigned long long)va_arg(ap, void *);
        else if (lng > 0) v = va_arg(ap, unsigned long long);
        else { int i = va_arg(ap, int); v = sg ? (unsigned long long)(long long)i : (unsigned long long)(unsigned)i; }
        if (o->file >= 0 && !vf_sinking()) break;
        if (vf_vague && o->file >= 0 && sx_is_sym(v)) { put1(o, '0'); break; }
        v = sx_conc(v);
        if (sg && (long long)v < 0) { neg = true; v = 0 - v; }
        char dgt[32]; int k = 0;
        do { unsigned q = (unsigned)(v % base); dgt[k++] = (char)(q < 10 ? '0' + q : (*f == 'X' ? 'A' : 'a') + q - 10); v /= base; } while (v);
        while (k < prec && k < 30) dgt[k++] = '0';
        if (neg) tmp[n++] = '-'; else if (plus) tmp[n++] = '+'; else if (space) tmp[n++] = ' ';
        if (alt && base == 16) { tmp[n++] = '0'; tmp[n++] = 'x'; }
        int pad = width - n - k;
        if (!left && !(zero && prec < 0)) for (; pad > 0; pad--) put1(o, ' ');
        for (int i = 0; i < n; i++) put1(o, tmp[i]);
        if (!left && zero) for (; pad > 0; pad--) put1(o, '0');
        while (k) put1(o, dgt[--k]);
        for (; pad > 0; pad--) put1(o, ' ');
        break;
      }
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': {
        double d = va_arg(ap, double);
        if (o->file >= 0 && !vf_sinking()) break;
        if (vf_vague && o->file >= 0) { uint64_t bits; __builtin_memcpy(&bits, &d, 8); if (sx_is_sym(bits)) { put1(o, '0'); break; } }
        char fs[16], out[400]; int q = 0;
        fs[q++] = '%'; if (plus) fs[q++] = '+'; if (alt) fs[q++] = '#'; fs[q++] = '.'; if (prec < 0) prec = 6; if (prec > 99) prec = 99; if (prec >= 10) fs[q++] = (char)('0' + prec / 10); fs[q++] = (char)('0' + prec % 10); fs[q++] = *f; fs[q] = 0;
        sx_fmt_double(out, sizeof out, fs, d);
        int z = 0; while (out[z]) z++;
        if (!left) for (int i = z; i < width; i++) put1(o, zero ? '0' : ' ');
        for (int i = 0; i < z; i++) put1(o, out[i]);
        if (left) for (int i = z; i < width; i++) put1(o, ' ');
        break;
      }
      default: sx_error("printf conversion without a model");
    }
  }
}
static int fileNo(FILE *f) { if (f == stdout) return 0; if (f == stderr) return 1; sx_error("output to an unknown stream"); return 0; }
int vfprintf(FILE *f, const char *s, va_list ap) { struct sink o = {0, 0, 0, fileNo(f)}; fmt(&o, s, ap); return (int)o.len; }
int fprintf(FILE *f, const char *s, ...) { va_list ap; va_start(ap, s); int r = vfprintf(f, s, ap); va_end(ap); return r; }
int printf(const char *s, ...) { va_list ap; va_start(ap, s); int r = vfprintf(stdout, s, ap); va_end(ap); return r; }
int vprintf(const char *s, va_list ap) { return vfprintf(stdout, s, ap); }
int vsnprintf(char *b, size_t n, const char *s, va_list ap) {
  struct sink o = {b, n, 0, -1}; fmt(&o, s, ap);
  if (n) b[o.len < n ? o.len : n - 1] = 0;
  return (int)o.len;
}
int snprintf(char *b, size_t n, const char *s, ...) { va_list ap; va_start(ap, s); int r = vsnprintf(b, n, s, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *s, va_list ap) { return vsnprintf(b, 1u << 18, s, ap); }
int sprintf(char *b, const char *s, ...) { va_list ap; va_start(ap, s); int r = vsprintf(b, s, ap); va_end(ap); return r; }
int vasprintf(char **p, const char *s, va_list ap) {
  va_list aq; va_copy(aq, ap); int n = vsnprintf(NULL, 0, s, aq); va_end(aq);
  *p = malloc((size_t)n + 1); if (!*p) return -1;
  return vsnprintf(*p, (size_t)n + 1, s, ap);
}
int asprintf(char **p, const char *s, ...) { va_list ap; va_start(ap, s); int r = vasprintf(p, s, ap); va_end(ap); return r; }
int fputs(const char *s, FILE *f) { struct sink o = {0, 0, 0, fileNo(f)}; putstr(&o, s, -1, 0, false); return 1; }
int puts(const char *s) { fputs(s, stdout); struct sink o = {0, 0, 0, 0}; put1(&o, '\n'); return 1; }
int fputc(int c, FILE *f) { struct sink o = {0, 0, 0, fileNo(f)}; put1(&o, (char)c); return (unsigned char)c; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int putchar_unlocked(int c) { return fputc(c, stdout); }
int putc_unlocked(int c, FILE *f) { return fputc(c, f); }
int fputc_unlocked(int c, FILE *f) { return fputc(c, f); }
int fputs_unlocked(const char *s, FILE *f) { return fputs(s, f); }
int ferror(FILE *f) { (void)f; return 0; }
int feof(FILE *f) { (void)f; return 0; }
int setvbuf(FILE *f, char *b, int m, size_t n) { (void)f; (void)b; (void)m; (void)n; return 0; }
int vdprintf(int fd, const char *s, va_list ap) { struct sink o = {0, 0, 0, fd == 2}; fmt(&o, s, ap); return (int)o.len; }
int dprintf(int fd, const char *s, ...) { va_list ap; va_start(ap, s); int r = vdprintf(fd, s, ap); va_end(ap); return r; }
size_t fwrite(const void *p, size_t a, size_t b, FILE *f) { struct sink o = {0, 0, 0, fileNo(f)}; if (a * b) sx_readable(p, a * b); for (size_t i = 0; vf_sinking() && i < a * b; i++) put1(&o, ((const char *)p)[i]); return b; }
void perror(const char *s) {}
