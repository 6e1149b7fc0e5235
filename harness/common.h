#ifndef COMMON_H
#define COMMON_H
#define NO_COLOR 1
#include "argus.h"
#include "argus/errors.h"
#include "vf.h"
#include <errno.h>
typedef argus_option_t O;
#ifndef VF_THOROUGH
#define VF_THOROUGH 0
#endif
#define Q(quick, thorough) (VF_THOROUGH ? (thorough) : (quick))
/* a private, writable copy of an option table */
static inline O *tab_(const O *t, size_t n) { O *r = (O *)vf_mem(n * sizeof(O)); for (size_t i = 0; i < n; i++) r[i] = t[i]; return r; }
#define TAB(t) tab_(t, sizeof(t) / sizeof((t)[0]))
static inline int go(argus_t *a, O *o, int argc, char **argv) { *a = argus_init(o, "prog", "1"); errno = ERANGE; /* whatever happened before */ return argus_parse(a, argc, argv); }
#define ARGS(...) ((char *[]){(char *)"prog", __VA_ARGS__, NULL})
#define ARGC(...) ((int)(sizeof((char *[]){(char *)"prog", __VA_ARGS__}) / sizeof(char *)))
#define GO(a, o, ...) go(&(a), o, ARGC(__VA_ARGS__), ARGS(__VA_ARGS__))
#define S(x) vf_lit(x)
/* does the captured output hold this text (either may be symbolic; no branching on the content) */
static inline bool printed(int f, const char *w) {
  size_t n = vf_len(w); bool r = false;
  for (size_t i = 0; i + n <= vf_outlen[f]; i++) { bool m = true; for (size_t k = 0; k < n; k++) m &= vf_out[f][i + k] == w[k]; r |= m; }
  return r;
}
static inline bool silent(void) { return vf_outlen[0] == 0 && vf_outlen[1] == 0; }
static inline void no_exit(int code) { (void)code; CHECK(false, "the process is not ended"); }
#endif
