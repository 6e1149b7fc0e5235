#include "vf.h"
#include "pcre2.h"
#include <stdlib.h>
/* compiled into both builds; outcomes are chosen by the engine */
int vf_regex_outcome; /* 0 not called, 1 match, 2 no match, 3 engine error, 4 bad pattern */
int vf_regex_calls, vf_regex_real; const char *vf_regex_pattern, *vf_regex_subject;
/* 1 the pattern matches somewhere in the text, 0 it does not, -1 it does not compile; only called with vf_regex_real */
int vf_rx(const char *pattern, size_t plen, uint32_t copt, const char *text, size_t len, uint32_t mopt, bool compile_only);
struct pcre2_real_code_8 { int live; const char *pat; size_t len; uint32_t opt; }; struct pcre2_real_match_data_8 { int live; };
pcre2_code *pcre2_compile(PCRE2_SPTR p, PCRE2_SIZE n, uint32_t o, int *e, PCRE2_SIZE *off, pcre2_compile_context *c) {
  vf_regex_calls++; vf_regex_pattern = (const char *)p; if (n == PCRE2_ZERO_TERMINATED) n = vf_len((const char *)p); else sx_readable(p, n);
  if (vf_regex_real) vf_regex_outcome = vf_rx((const char *)p, n, o, "", 0, 0, true) < 0 ? 4 : 0;
  else vf_regex_outcome = 1 + (int)sx_choose(4, "regex");
  if (vf_regex_outcome == 4) { *e = 101; *off = 0; return NULL; }
  pcre2_code *r = malloc(sizeof *r); if (!r) { *e = 21; *off = 0; vf_regex_outcome = 4; } else { r->live = 1; r->pat = (const char *)p; r->len = n; r->opt = o; } return r;
}
int pcre2_get_error_message(int e, PCRE2_UCHAR *b, PCRE2_SIZE n) { const char *m = "bad pattern"; size_t i = 0; if (!n) return -48; for (; i + 1 < n && m[i]; i++) b[i] = (PCRE2_UCHAR)m[i]; b[i] = 0; return (int)i; }
pcre2_match_data *pcre2_match_data_create(uint32_t k, pcre2_general_context *g) { pcre2_match_data *r = malloc(sizeof *r); if (r) r->live = 1; return r; }
pcre2_match_data *pcre2_match_data_create_from_pattern(const pcre2_code *c, pcre2_general_context *g) { if (!c->live) sx_error("pcre2: freed code"); return pcre2_match_data_create(1, g); }
int pcre2_jit_compile(pcre2_code *c, uint32_t o) { return PCRE2_ERROR_JIT_BADOPTION; } /* a build without JIT */
int pcre2_match(const pcre2_code *c, PCRE2_SPTR s, PCRE2_SIZE n, PCRE2_SIZE st, uint32_t o, pcre2_match_data *m, pcre2_match_context *x) {
  if (!c || !m || !s) return -51; /* PCRE2_ERROR_NULL */
  if (!c->live || !m->live) sx_error("pcre2_match: freed argument");
  vf_regex_subject = (const char *)s;
  if (vf_regex_real) {
    if (n == PCRE2_ZERO_TERMINATED) n = vf_len((const char *)s); else sx_readable(s, n);
    if (st > n) return PCRE2_ERROR_BADOFFSET; if (st) sx_error("pcre2: a start inside the text");
    return vf_rx(c->pat, c->len, c->opt, (const char *)s, n, o, false) > 0 ? 1 : PCRE2_ERROR_NOMATCH;
  }
  return vf_regex_outcome == 1 ? 1 : vf_regex_outcome == 2 ? PCRE2_ERROR_NOMATCH : PCRE2_ERROR_MATCHLIMIT;
}
void pcre2_match_data_free(pcre2_match_data *m) { free(m); }
void pcre2_code_free(pcre2_code *c) { free(c); }
