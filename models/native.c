/* Native side of the harness interface: replays a model against the real code
   compiled with sanitizers and the real C library. */
#define _GNU_SOURCE
#include "vf.h"
#include <dlfcn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
extern const char *vf_envn[16], *vf_envv[16]; extern int vf_envc;
ssize_t __real_write(int, const void *, size_t);
static FILE *in; static int res = -1; static long live;
static void out(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); if (n > 4095) n = 4095; if (res >= 0 && n > 0) { ssize_t w = __real_write(res, b, (size_t)n); (void)w; } } static int fillb = 0xA5;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static void finish(const char *how) { out("end %s\n", how); _exit(0); }
static char *line(void) {
  static char *buf; static size_t cap;
  for (;;) {
    ssize_t n = getline(&buf, &cap, in);
    if (n < 0) finish("desync");
    while (n && (buf[n - 1] == '\n')) buf[--n] = 0;
    if (buf[0] == 'b' || buf[0] == 'v' || buf[0] == 'c') return buf;
  }
}
static char *field(char kind, const char *name) {
  char *l = line(); size_t n = strlen(name);
  if (l[0] != kind || strncmp(l + 2, name, n) || l[2 + n] != ' ') { out("desync: wanted %c %s, have %s\n", kind, name, l); finish("desync"); }
  return l + 3 + n;
}
void sx_bytes(void *p, size_t n, const char *name) {
  char *v = field('b', name);
  for (size_t i = 0; i < n; i++) { unsigned x; if (sscanf(v + 2 * i, "%2x", &x) != 1) finish("desync"); ((unsigned char *)p)[i] = (unsigned char)x; }
}
uint64_t sx_var(int w, const char *name) { uint64_t x = strtoull(field('v', name), NULL, 10); return w < 64 ? x & ((1ull << w) - 1) : x; }
double sx_fvar(const char *name) { uint64_t x = strtoull(field('v', name), NULL, 10); double d; memcpy(&d, &x, 8); return d; }
uint64_t sx_choose(uint64_t n, const char *name) { uint64_t x = strtoull(field('c', name), NULL, 10); if (x >= n) finish("desync"); return x; }
void sx_assume(bool c) { if (!c) { out("assume-failed\n"); finish("assume"); } }
void sx_assert(bool c, const char *msg) { if (!c) { out("assert %s\n", msg); finish("assert"); } }
void sx_reach(const char *l) { out("reach %s\n", l); }
void *sx_alloc(size_t n) { void *p = __real_malloc(n); if (p) { memset(p, fillb, n); live++; } return p; }
void sx_free(void *p) { if (p) live--; __real_free(p); }
size_t sx_live(void) { return (size_t)live; }
void sx_end(void) { finish("ok"); }
uint64_t sx_conc(uint64_t v) { return v; }
bool sx_is_sym(uint64_t v) { (void)v; return false; }
void sx_obs(const char *name, uint64_t v) { out("o %s %llu\n", name, (unsigned long long)v); }
void sx_log(const char *name, uint64_t v) { out("log %s %llu\n", name, (unsigned long long)v); }
void sx_error(const char *msg) { out("modelled-error %s\n", msg); finish("error"); }
void sx_readable(const void *p, size_t n) { volatile const char *q = p; for (size_t i = 0; i < n; i++) (void)q[i]; }
int sx_fmt_double(char *b, size_t n, const char *f, double d) { return snprintf(b, n, f, d); }
size_t sx_heap_size(void *p) { (void)p; return 0; }

static int fails(void) { vf_alloc_count++; if (vf_fail_at && vf_alloc_count == vf_fail_at) { vf_alloc_failed = 1; errno = ENOMEM; return 1; } return 0; }
void *__wrap_malloc(size_t n) { if (fails()) return NULL; return sx_alloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (fails()) return NULL; void *p = __real_calloc(a, b); if (p) live++; return p; }
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (!n) { sx_free(p); return NULL; }
  if (fails()) return NULL;
  return __real_realloc(p, n);
}
void __wrap_free(void *p) { sx_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = __wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *__wrap_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL; return __wrap_realloc(p, n); }
int __wrap_vasprintf(char **p, const char *s, va_list ap) {
  va_list aq; va_copy(aq, ap); int n = vsnprintf(NULL, 0, s, aq); va_end(aq);
  if (n < 0 || !(*p = __wrap_malloc((size_t)n + 1))) { *p = NULL; return -1; }
  return vsnprintf(*p, (size_t)n + 1, s, ap);
}
int __wrap_asprintf(char **p, const char *s, ...) { va_list ap; va_start(ap, s); int r = __wrap_vasprintf(p, s, ap); va_end(ap); return r; }
void __wrap_exit(int c) { if (vf_on_exit) vf_on_exit(c); finish("ok"); __builtin_unreachable(); }
void __wrap_abort(void) { sx_error("abort"); __builtin_unreachable(); }
char *__wrap_getenv(const char *n);
char *__wrap_secure_getenv(const char *n) { return __wrap_getenv(n); }
char *__wrap_getenv(const char *n) { for (int i = 0; i < vf_envc; i++) if (!strcmp(n, vf_envn[i])) return (char *)vf_envv[i]; return NULL; }

/* the real PCRE2, for harnesses that ask what a pattern says */
#define VF_PCRE2_REAL 1
#include "pcre2.h"
int vf_rx(const char *p, size_t plen, uint32_t copt, const char *t, size_t len, uint32_t mopt, bool only) {
  int e; PCRE2_SIZE off; pcre2_code *c = pcre2_compile((PCRE2_SPTR)p, plen, copt, &e, &off, NULL);
  if (!c) return -1;
  pcre2_match_data *m = pcre2_match_data_create_from_pattern(c, NULL);
  int r = only ? 0 : pcre2_match(c, (PCRE2_SPTR)t, len, 0, mopt, m, NULL);
  pcre2_match_data_free(m); pcre2_code_free(c); return r > 0;
}

static void emit(int f, const char *s, size_t n) { for (size_t i = 0; i < n; i++) vf_emit(f, s[i]); }
int __wrap_vfprintf(FILE *f, const char *s, va_list ap) {
  va_list aq; va_copy(aq, ap); int n = vsnprintf(NULL, 0, s, aq); va_end(aq);
  char *b = n >= 0 ? __real_malloc((size_t)n + 1) : NULL;
  if (b) vsnprintf(b, (size_t)n + 1, s, ap);
  if (b) emit(f == stderr, b, (size_t)n);
  __real_free(b);
  return n;
}
int __wrap_fprintf(FILE *f, const char *s, ...) { va_list ap; va_start(ap, s); int r = __wrap_vfprintf(f, s, ap); va_end(ap); return r; }
int __wrap_printf(const char *s, ...) { va_list ap; va_start(ap, s); int r = __wrap_vfprintf(stdout, s, ap); va_end(ap); return r; }
int __wrap_vprintf(const char *s, va_list ap) { return __wrap_vfprintf(stdout, s, ap); }
int __wrap_puts(const char *s) { emit(0, s, strlen(s)); emit(0, "\n", 1); return 1; }
int __wrap_fputs(const char *s, FILE *f) { emit(f == stderr, s, strlen(s)); return 1; }
int __wrap_putchar(int c) { char x = (char)c; emit(0, &x, 1); return c; }
int __wrap_fputc(int c, FILE *f) { char x = (char)c; emit(f == stderr, &x, 1); return c; }
int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
int __wrap_putchar_unlocked(int c) { return __wrap_putchar(c); }
int __wrap_putc_unlocked(int c, FILE *f) { return __wrap_fputc(c, f); }
int __wrap_fputc_unlocked(int c, FILE *f) { return __wrap_fputc(c, f); }
int __wrap_fputs(const char *s, FILE *f);
int __wrap_fputs_unlocked(const char *s, FILE *f) { return __wrap_fputs(s, f); }
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) { sx_readable(p, a * b); emit(f == stderr, p, a * b); return b; }
void __wrap_perror(const char *s) { (void)s; }

int main(int argc, char **argv) {
  if (argc < 4) return 3;
  if (argc > 4) fillb = (int)strtol(argv[4], NULL, 16);
  in = fopen(argv[2], "r"); res = open(argv[3], O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (!in || res < 0) return 3;
  void (*e)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]);
  if (!e) { out("no entry\n"); return 3; }
  alarm(20);
  e();
  finish("ok");
}
