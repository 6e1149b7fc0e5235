/* helpers shared by the symbolic and the native build */
#include "vf.h"
long vf_fail_at, vf_alloc_count; int vf_alloc_failed; int vf_capture, vf_vague;
char vf_out[2][VF_OUT_MAX]; size_t vf_outlen[2]; void (*vf_on_exit)(int);
const char *vf_envn[16], *vf_envv[16]; int vf_envc;
void vf_env(const char *n, const char *v) { vf_envn[vf_envc] = n; vf_envv[vf_envc++] = v; }
char *vf_mem(size_t n) { return sx_alloc(n); }
size_t vf_len(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
char *vf_lit(const char *s) { size_t n = vf_len(s); char *p = vf_mem(n + 1); for (size_t i = 0; i <= n; i++) p[i] = s[i]; return p; }
char *vf_strn(size_t len, const char *name) {
  char *p = vf_mem(len + 1);
  if (len) sx_bytes(p, len, name);
  for (size_t i = 0; i < len; i++) sx_assume(p[i] != 0);
  p[len] = 0;
  return p;
}
char *vf_strmax(size_t max, const char *name) { return vf_strn(sx_choose(max + 1, "length"), name); }
bool vf_in(char c, const char *set) { bool r = false; for (; *set; set++) r |= (c == *set); return r; }
char *vf_strset(size_t len, const char *set, const char *name) {
  char *p = vf_mem(len + 1);
  if (len) sx_bytes(p, len, name);
  for (size_t i = 0; i < len; i++) sx_assume(vf_in(p[i], set));
  p[len] = 0;
  return p;
}
char *vf_cat(const char *a, const char *b) {
  size_t x = vf_len(a), y = vf_len(b); char *p = vf_mem(x + y + 1);
  for (size_t i = 0; i < x; i++) p[i] = a[i];
  for (size_t i = 0; i <= y; i++) p[x + i] = b[i];
  return p;
}
bool vf_eq(const char *a, const char *b) { for (; *a && *a == *b; a++, b++) {} return *a == *b; }
static bool at(const char *h, const char *n) { for (; *n; h++, n++) if (*h != *n) return false; return true; }
int vf_count(const char *h, const char *n) { int k = 0; for (; *h; h++) if (at(h, n)) k++; return k; }
bool vf_has(const char *h, const char *n) { return vf_count(h, n) > 0; }
