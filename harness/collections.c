/* Arrays, ranges, maps, their ordering options and their growth. */
#include "common.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#define MAXN 64
struct list { int n; char *s[MAXN]; };
static char *piece(const char *b, size_t n) { char *r = vf_mem(n + 1); for (size_t i = 0; i < n; i++) r[i] = b[i]; r[n] = 0; return r; }
/* the elements a value denotes: comma-separated, empty ones skipped; no comma: the value itself */
static void elements(struct list *l, const char *v) {
  bool comma = false; for (const char *p = v; *p; p++) if (*p == ',') { comma = true; break; }
  if (!comma) { l->s[l->n++] = (char *)v; return; }
  const char *b = v;
  for (const char *p = v;; p++) if (*p == ',' || !*p) { if (p > b) l->s[l->n++] = piece(b, (size_t)(p - b)); if (!*p) break; b = p + 1; }
}
/* ---- string arrays */
static void strings_are(argus_t *a, const char *nm, struct list *l) {
  CHECK(argus_count(a, nm) == (size_t)l->n, "a collection holds one value per element given");
  for (int i = 0; i < l->n; i++) CHECK(vf_eq(argus_array_get(a, nm, (size_t)i).as_string, l->s[i]), "elements are kept in the order given");
}
static O arrs[] = { OPTION_ARRAY_STRING('s', "strs", ENV_VAR("STRS")), OPTION_ARRAY_INT('i', "ints", ENV_VAR("INTS")), OPTION_ARRAY_FLOAT('f', "floats"), OPTION_END() };
void array_str1(void) {
  O *o = TAB(arrs); argus_t a; struct list l = {0}; char *v = vf_strmax(Q(7, 9), "value"); int way = (int)sx_choose(3, "way");
  int st = 0;
  if (way == 0) st = GO(a, o, S("-s"), v); else if (way == 1) st = GO(a, o, vf_cat("--strs=", v)); else { vf_env("STRS", v); st = go(&a, o, 1, ARGS(NULL)); }
  elements(&l, v);
  CHECK(st == 0, "a list of strings is accepted"); CHECK(argus_is_set(&a, "strs"), "a list given is set");
  strings_are(&a, "strs", &l); if (l.n > 1) sx_reach("several"); argus_free(&a);
}
void array_str2(void) {
  O *o = TAB(arrs); argus_t a; struct list l = {0}; char *v = vf_strmax(Q(4, 5), "value"), *w = vf_strmax(Q(4, 5), "again");
  int st = GO(a, o, S("-s"), v, S("--strs"), w); elements(&l, v); elements(&l, w);
  CHECK(st == 0, "a repeated list is accepted"); strings_are(&a, "strs", &l); argus_free(&a);
}
/* ---- integer arrays with ranges */
static bool dgt(char c) { return c >= '0' && c <= '9'; }
static bool int_of(const char *s, size_t n, int64_t *r) { /* [-+]?digits, small */
  size_t i = 0; bool neg = false; int64_t v = 0;
  if (i < n && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  if (i == n) return false;
  for (; i < n; i++) { if (!dgt(s[i])) return false; v = v * 10 + (s[i] - '0'); }
  *r = neg ? -v : v; return true;
}
/* appends what the element denotes: an integer, or a range a-b / a:b in ascending order */
static bool ints_of(int64_t *out, int *n, const char *e) {
  size_t len = vf_len(e); int64_t x, y;
  if (int_of(e, len, &x)) { out[(*n)++] = x; return true; }
  for (size_t i = 1; i < len; i++) if ((e[i] == '-' || e[i] == ':') && dgt(e[i - 1])) {
    if (e[i + 1] == '+' || !int_of(e, i, &x) || !int_of(e + i + 1, len - i - 1, &y)) return false;
    int64_t lo = x < y ? x : y, hi = x < y ? y : x;
    for (int64_t k = lo; k <= hi; k++) out[(*n)++] = k;
    return true;
  }
  return false;
}
static void ints_check(int st, argus_t *a, struct list *l) {
  int64_t out[512]; int n = 0; bool ok = true;
  for (int i = 0; i < l->n && ok; i++) ok = ints_of(out, &n, l->s[i]);
  if (!ok) { sx_reach("malformed"); CHECK(st == ARGUS_ERROR_INVALID_FORMAT, "a list with a malformed integer or range is rejected"); return; }
  CHECK(st == 0, "integers and ranges are accepted");
  CHECK(argus_count(a, "ints") == (size_t)n, "a range stands for every integer between its bounds, both included");
  for (int i = 0; i < n; i++) CHECK(argus_array_get(a, "ints", (size_t)i).as_int64 == out[i], "a range expands in ascending order, in place");
  if (n > 3) sx_reach("range");
}
void array_int1(void) {
  O *o = TAB(arrs); argus_t a; struct list l = {0}; char *v = vf_strset(1 + sx_choose(Q(5, 7), "length"), "01-:,x", "value");
  int st = GO(a, o, S("-i"), v); elements(&l, v); ints_check(st, &a, &l);
}
void array_int_sign(void) {
  O *o = TAB(arrs); argus_t a; struct list l = {0}; char *v = vf_strset(1 + sx_choose(Q(5, 6), "length"), "1-+:", "value");
  int st = GO(a, o, S("-i"), v); elements(&l, v); ints_check(st, &a, &l);
}
void array_int_any(void) {
  O *o = TAB(arrs); argus_t a; struct list l = {0}; char *v = vf_strmax(Q(3, 3), "value");
  for (char *p = v; *p; p++) sx_assume(*p != ' ' && !(*p >= 9 && *p <= 13));
  int st = GO(a, o, S("-i"), v); elements(&l, v); ints_check(st, &a, &l);
}
void array_int2(void) {
  O *o = TAB(arrs); argus_t a; struct list l = {0}; char *v = vf_strset(3, "02-:,", "value"), *w = vf_strset(Q(2, 3), "13-,", "again");
  int st = GO(a, o, S("-i"), v, S("--ints"), w); elements(&l, v); elements(&l, w); ints_check(st, &a, &l);
}
/* ---- float arrays */
void array_float1(void) {
  O *o = TAB(arrs); argus_t a; struct list l = {0}; char *v = vf_strset(1 + sx_choose(Q(5, 6), "length"), "05.,-x", "value"); double w[8]; bool ok = true; char *e;
  int st = GO(a, o, S("-f"), v); elements(&l, v);
  for (int i = 0; i < l.n; i++) { w[i] = strtod(l.s[i], &e); if (e == l.s[i] || *e) { ok = false; break; } }
  if (!ok) { CHECK(st == ARGUS_ERROR_INVALID_FORMAT, "a list with a malformed number is rejected"); return; }
  CHECK(st == 0, "a list of numbers is accepted"); CHECK(argus_count(&a, "floats") == (size_t)l.n, "one value per number");
  for (int i = 0; i < l.n; i++) { uint64_t p, q; double d = argus_array_get(&a, "floats", (size_t)i).as_float; memcpy(&p, &d, 8); memcpy(&q, &w[i], 8); CHECK(p == q, "each number of a list is kept in full precision, in order"); }
}
/* ---- maps */
static O maps[] = { OPTION_MAP_STRING('s', "ms"), OPTION_MAP_INT('i', "mi"), OPTION_MAP_FLOAT('f', "mf"), OPTION_MAP_BOOL('b', "mb"), OPTION_END() };
struct pairs { int n; char *k[MAXN], *v[MAXN]; };
static bool pairs_of(struct pairs *m, struct list *l) {
  for (int i = 0; i < l->n; i++) {
    char *e = l->s[i], *q = e; while (*q && *q != '=') q++;
    if (!*q) return false;
    char *k = piece(e, (size_t)(q - e)); int j = 0; while (j < m->n && !vf_eq(m->k[j], k)) j++;
    m->k[j] = k; m->v[j] = q + 1; if (j == m->n) m->n++;
  }
  return true;
}
static void map_check(argus_t *a, const char *nm, struct pairs *m) {
  CHECK(argus_count(a, nm) == (size_t)m->n, "a map holds one entry per distinct key");
  for (int i = 0; i < m->n; i++) {
    argus_value_t v = argus_map_get(a, nm, m->k[i]); CHECK(a->error_code == 0, "every key given can be looked up");
    if (nm[1] == 's') CHECK(vf_eq(v.as_string, m->v[i]), "a key has the value given last");
    else if (nm[1] == 'i') { int64_t x = 0; int_of(m->v[i], vf_len(m->v[i]), &x); CHECK(v.as_int64 == x, "a key has the integer given last"); }
    else if (nm[1] == 'b') CHECK(v.as_bool == (m->v[i][0] == 'y' || m->v[i][0] == '1'), "a key has the boolean given last");
    else { double x = strtod(m->v[i], 0); CHECK(v.as_float == x, "a key has the number given last"); }
  }
  if (m->n > 1) sx_reach("several");
}
void map_str1(void) {
  O *o = TAB(maps); argus_t a; struct list l = {0}; struct pairs m = {0}; char *v = vf_strset(1 + sx_choose(Q(6, 8), "length"), "ab=,", "value");
  int st = GO(a, o, S("-s"), v); elements(&l, v);
  if (!pairs_of(&m, &l)) { sx_reach("malformed"); CHECK(st == ARGUS_ERROR_INVALID_FORMAT, "an entry without '=' is rejected"); return; }
  CHECK(st == 0, "entries of the form key=value are accepted"); map_check(&a, "ms", &m); argus_free(&a);
}
void map_str_any(void) {
  O *o = TAB(maps); argus_t a; struct list l = {0}; struct pairs m = {0}; char *v = vf_strmax(Q(5, 6), "value");
  int st = GO(a, o, vf_cat("--ms=", v)); elements(&l, v);
  if (!pairs_of(&m, &l)) { CHECK(st == ARGUS_ERROR_INVALID_FORMAT, "an entry without '=' is rejected"); return; }
  CHECK(st == 0, "entries of the form key=value are accepted"); map_check(&a, "ms", &m); argus_free(&a);
}
/* two occurrences; keys and values symbolic */
void map_twice(void) {
  O *o = TAB(maps); argus_t a; struct list l = {0}; struct pairs m = {0}; int t = (int)sx_choose(4, "type"); static const char *const nm[] = {"ms", "mi", "mf", "mb"}, *const op[] = {"-s", "--mi", "-f", "--mb"}, *const set[] = {"ab", "17", "29", "yn"};
  char *v[3]; for (int i = 0; i < 3; i++) v[i] = vf_cat(vf_cat(vf_strset(sx_choose(3, "length"), "kl", "key"), "="), vf_strset(1, set[t], "val"));
  char *x = vf_cat(vf_cat(v[0], ","), v[1]);
  int st = GO(a, o, S(op[t]), x, S(op[t]), v[2]); elements(&l, x); elements(&l, v[2]); pairs_of(&m, &l);
  CHECK(st == 0, "a map given twice is accepted"); map_check(&a, nm[t], &m); argus_free(&a);
}
/* values that do not fit the map's type */
void map_bad(void) {
  O *o = TAB(maps); argus_t a; int t = 1 + (int)sx_choose(3, "type"); static const char *const op[] = {"-s", "-i", "-f", "-b"};
  char *v = vf_strmax(2, "val"); for (char *p = v; *p; p++) sx_assume(*p != ',' && *p != ' ' && !(*p >= 9 && *p <= 13)); int64_t x; char *e;
  bool ok = t == 1 ? int_of(v, vf_len(v), &x) : t == 2 ? (strtod(v, &e), e != v && !*e) : ((v[0] == '0' || v[0] == '1' || (v[0] | 32) == 'y' || (v[0] | 32) == 'n') && !v[1]) || ((v[0] | 32) == 'n' && (v[1] | 32) == 'o') || ((v[0] | 32) == 'o' && (v[1] | 32) == 'n');
  bool first = sx_choose(2, "first"); char *bad = vf_cat("k=", v), *good = S("j=1"), *all = first ? vf_cat(vf_cat(bad, ","), good) : vf_cat(vf_cat(good, ","), bad);
  size_t live = sx_live(); int st = GO(a, o, S(op[t]), all);
  if (ok) { sx_reach("good"); CHECK(st == 0, "a value of the map's type is accepted"); CHECK(argus_count(&a, op[t][1] == 'i' ? "mi" : op[t][1] == 'f' ? "mf" : "mb") == 2, "both entries are kept"); }
  else { sx_reach("bad"); CHECK(st == ARGUS_ERROR_INVALID_VALUE, "a value that is not of the map's type is rejected"); }
  (void)live;
}
/* booleans of a map: the documented words in any letter case, and no others */
void map_bad_words(void) {
  static const char *const w[] = {"1", "true", "yes", "y", "on", "0x1", "0b1", "0", "false", "no", "n", "off", "0x0", "0b0"}; int k = (int)sx_choose(ARRLEN(w), "word"); char *x = vf_strmax(Q(2, 3), "after"), *y = vf_cat(w[k], x); argus_t a; for (char *p = x; *p; p++) sx_assume(*p != ',' && *p != ' ' && !(*p >= 9 && *p <= 13)); int c = (int)sx_choose(3, "case"); for (size_t i = 0; i < vf_len(w[k]); i++) if (y[i] >= 'a' && y[i] <= 'z' && (c == 1 || (c == 2 && i % 2))) y[i] -= 32;
  int is = -1; size_t n = vf_len(y); for (int j = 0; j < (int)ARRLEN(w); j++) { if (vf_len(w[j]) != n) continue; bool same = true; for (size_t i = 0; i < n; i++) same &= y[i] == w[j][i] || (y[i] >= 'A' && y[i] <= 'Z' && y[i] + 32 == w[j][i]); if (same) is = j < 7; }
  int st = GO(a, TAB(maps), S("-b"), vf_cat("k=", y)); if (is < 0) { CHECK(st == ARGUS_ERROR_INVALID_VALUE, "a value that is not of the map's type is rejected"); sx_reach("bad"); return; }
  CHECK(st == 0, "a value of the map's type is accepted"); CHECK(argus_map_get(&a, "mb", "k").as_bool == is, "a key has the value given"); sx_reach("good"); argus_free(&a);
}
/* long keys, values and elements that agree in all but one place */
static const int lens[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1025};
static char *longish(int n, int at, const char *set, char fill) { char *x = vf_mem((size_t)n + 1), *c = vf_strset(1, set, "letter"); for (int i = 0; i < n; i++) x[i] = fill; x[at] = c[0]; x[n] = 0; return x; }
static int somelen(void) { return lens[sx_choose(Q(18, ARRLEN(lens)), "length")]; }
static int place(int n) { int k = (int)sx_choose(3, "place"); return k == 0 ? 0 : k == 1 ? n / 2 : n - 1; }
void array_long(void) {
  O *o = TAB(arrs); argus_t a; struct list l = {0}; int n = somelen(), at = place(n); char *e[3]; for (int i = 0; i < 3; i++) e[i] = i == 1 ? S("m") : longish(n, at, "ab=", 'x'); char *x = vf_cat(vf_cat(e[0], ","), vf_cat(e[1], vf_cat(",", e[2]))); bool rep = sx_choose(2, "repeated");
  int st = rep ? GO(a, o, S("-s"), x, S("--strs"), e[2]) : GO(a, o, vf_cat("--strs=", x)); elements(&l, x); if (rep) elements(&l, e[2]); CHECK(st == 0, "a list of strings is accepted"); strings_are(&a, "strs", &l); argus_free(&a);
}
void map_long(void) {
  O *o = TAB(maps); argus_t a; struct list l = {0}; struct pairs m = {0}; int t = (int)sx_choose(4, "type"), n = somelen(), at = place(n); static const char *const nm[] = {"ms", "mi", "mf", "mb"}, *const op[] = {"-s", "--mi", "-f", "--mb"}, *const set[] = {"yz", "17", "29", "yn"}; char *e[3], *x = NULL; bool rep = sx_choose(2, "repeated");
  for (int i = 0; i < 3; i++) { char *k = i == 2 ? longish(n - 1, n / 3, "kx", 'x') : longish(n, at, "kl", 'x'); e[i] = vf_cat(vf_cat(k, "="), t == 0 ? longish(n, at, "yz=", 'v') : vf_strset(1, set[t], "val")); if (i < 2 || !rep) x = x ? vf_cat(x, vf_cat(",", e[i])) : e[i]; }
  int st = rep ? GO(a, o, S(op[t]), x, S(op[t]), e[2]) : GO(a, o, S(op[t]), x); elements(&l, x); if (rep) elements(&l, e[2]); pairs_of(&m, &l); CHECK(st == 0, "a map is accepted"); map_check(&a, nm[t], &m);
  char *none = longish(n, at, "pq", 'x'); CHECK(argus_map_get(&a, nm[t], none).raw == 0 && a.error_code == ARGUS_ERROR_INVALID_KEY, "a key not given is not in the map"); argus_free(&a);
}
/* ---- growth: any number of elements, in one value or many */
void grow_array(void) {
  size_t n = 1 + sx_choose(Q(40, 80), "elements"); int kind = (int)sx_choose(6, "kind"); argus_t a; char *c = vf_mem(n); sx_bytes(c, n, "digit");
  for (size_t i = 0; i < n; i++) sx_assume(c[i] >= '1' && c[i] <= '9');
  static O t[] = { OPTION_ARRAY_STRING('s', "strs"), OPTION_ARRAY_INT('i', "ints"), OPTION_ARRAY_FLOAT('f', "floats"), OPTION_END() }; O tv[] = { kind == 3 ? POSITIONAL_MANY_INT("many") : kind == 4 ? POSITIONAL_MANY_STRING("many") : POSITIONAL_MANY_FLOAT("many"), OPTION_END() };
  O *o = TAB(t), *ov = tv; int st; const char *nm;
  if (kind >= 3) {
    char **av = vf_mem((n + 2) * sizeof *av); av[0] = "prog"; for (size_t i = 0; i < n; i++) av[i + 1] = piece(c + i, 1); av[n + 1] = 0;
    nm = "many"; st = go(&a, ov, (int)n + 1, av);
  } else {
    char *v = vf_mem(2 * n); for (size_t i = 0; i < n; i++) { v[2 * i] = c[i]; v[2 * i + 1] = i + 1 < n ? ',' : 0; }
    nm = kind == 0 ? "strs" : kind == 1 ? "ints" : "floats"; st = GO(a, o, S(kind == 0 ? "-s" : kind == 1 ? "-i" : "-f"), v);
  }
  CHECK(st == 0, "a long list is accepted"); CHECK(argus_count(&a, nm) == n, "no element of a long list is lost");
  for (size_t i = 0; i < n; i++) { argus_value_t v = argus_array_get(&a, nm, i);
    CHECK(kind == 0 || kind == 4 ? v.as_string[0] == c[i] && !v.as_string[1] : kind == 2 || kind == 5 ? v.as_float == strtod(piece(c + i, 1), 0) : v.as_int64 == strtoll(piece(c + i, 1), 0, 10), "every element of a long list keeps its value and place"); }
  if (n > 16) sx_reach("grown");
  argus_free(&a);
}
void grow_repeat(void) {
  size_t n = 1 + sx_choose(Q(24, 40), "times"); argus_t a; static O t[] = { OPTION_ARRAY_INT('i', "ints"), OPTION_MAP_INT('m', "map"), OPTION_ARRAY_STRING('s', "strs"), OPTION_END() }; O *o = TAB(t);
  char **av = vf_mem((n * 3 + 2) * sizeof *av), *c = vf_mem(n); av[0] = "prog"; sx_bytes(c, n, "digit");
  for (size_t i = 0; i < n; i++) { sx_assume(c[i] >= '0' && c[i] <= '9'); char *d = piece(c + i, 1), k[3] = { (char)('a' + i / 8), (char)('a' + i % 8), 0 };
    av[3 * i + 1] = vf_cat("-i", d); av[3 * i + 2] = vf_cat(vf_cat(vf_cat("-m", k), "="), d); av[3 * i + 3] = vf_cat("-s", d); }
  av[3 * n + 1] = 0;
  CHECK(go(&a, o, (int)(3 * n) + 1, av) == 0, "a repeated option is accepted");
  CHECK(argus_count(&a, "ints") == n && argus_count(&a, "map") == n && argus_count(&a, "strs") == n, "each occurrence adds one element");
  for (size_t i = 0; i < n; i++) { char k[3] = { (char)('a' + i / 8), (char)('a' + i % 8), 0 };
    CHECK(argus_array_get(&a, "ints", i).as_int64 == strtoll(piece(c + i, 1), 0, 10), "occurrences keep their order"); CHECK(argus_map_get(&a, "map", k).as_int64 == strtoll(piece(c + i, 1), 0, 10), "every key keeps its value"); CHECK(argus_array_get(&a, "strs", i).as_string[0] == c[i], "occurrences keep their order"); }
  argus_free(&a);
}
void grow_map(void) {
  size_t n = 1 + sx_choose(Q(40, 60), "entries"); int kind = (int)sx_choose(4, "kind"); argus_t a; O *o = TAB(maps); char *c = vf_mem(n); sx_bytes(c, n, "digit");
  for (size_t i = 0; i < n; i++) { if (kind == 3 && i % 11) c[i] = (char)('0' + i % 2); else sx_assume(c[i] >= (kind == 3 ? '0' : '1') && c[i] <= (kind == 3 ? '1' : '9')); }
  char *v = vf_mem(5 * n); for (size_t i = 0; i < n; i++) { char *p = v + 5 * i; p[0] = (char)('a' + i / 8); p[1] = (char)('a' + i % 8); p[2] = '='; p[3] = c[i]; p[4] = i + 1 < n ? ',' : 0; }
  const char *nm = kind == 0 ? "ms" : kind == 1 ? "mi" : kind == 2 ? "mf" : "mb";
  CHECK(GO(a, o, S(kind == 0 ? "-s" : kind == 1 ? "-i" : kind == 2 ? "-f" : "-b"), v) == 0, "a large map is accepted"); CHECK(argus_count(&a, nm) == n, "no entry of a large map is lost");
  for (size_t i = 0; i < n; i++) { char k[3] = { (char)('a' + i / 8), (char)('a' + i % 8), 0 }; argus_value_t x = argus_map_get(&a, nm, k);
    CHECK(kind == 0 ? x.as_string[0] == c[i] && !x.as_string[1] : kind == 1 ? x.as_int64 == strtoll(piece(c + i, 1), 0, 10) : kind == 3 ? x.as_bool == (c[i] == '1') : x.as_float == strtod(piece(c + i, 1), 0), "every entry of a large map keeps its value"); }
  argus_free(&a);
}
void grow_range(void) {
  O *o = TAB(arrs); argus_t a; char *x = vf_strset(2, "0123456789", "lo"), *y = vf_strset(2, "0123456789", "hi"); int64_t lo = (x[0] - '0') * 10 + x[1] - '0', hi = (y[0] - '0') * 10 + y[1] - '0';
  if (lo > hi) { int64_t t = lo; lo = hi; hi = t; }
  sx_assume(hi - lo >= 7 && hi - lo <= Q(20, 60));
  int st = GO(a, o, S("-i"), vf_cat(vf_cat(x, sx_choose(2, "sep") ? ":" : "-"), y));
  CHECK(st == 0, "a wide range is accepted"); CHECK(argus_count(&a, "ints") == (size_t)(hi - lo + 1), "a wide range has one element per integer");
  for (int64_t k = lo; k <= hi; k++) CHECK(argus_array_get(&a, "ints", (size_t)(k - lo)).as_int64 == k, "a wide range is in ascending order");
}
/* a range at the ends of the 64-bit integers: terminates and is exact */
void range_edge(void) {
  O *o = TAB(arrs); argus_t a; int top = (int)sx_choose(2, "top"); char *d = vf_strset(1, "0123456789", "digit"); int back = (int)sx_choose(2, "reversed");
  const char *far = top ? "9223372036854775807" : "-9223372036854775808"; char *near = vf_cat(top ? "922337203685477580" : "-922337203685477580", d);
  long long n = 0; errno = 0; n = strtoll(near, 0, 10); if (errno) sx_end();
  int st = back ? GO(a, o, vf_cat("--ints=", vf_cat(vf_cat(far, ":"), near))) : GO(a, o, vf_cat("--ints=", vf_cat(vf_cat(near, ":"), far)));
  long long lo = top ? n : (-9223372036854775807LL - 1), hi = top ? 9223372036854775807LL : n;
  CHECK(st == 0, "a range at the limits is accepted");
  uint64_t k = (uint64_t)hi - (uint64_t)lo + 1;
  CHECK(argus_count(&a, "ints") == k, "a range at the limits has one element per integer");
  for (uint64_t i = 0; i < argus_count(&a, "ints"); i++) CHECK(argus_array_get(&a, "ints", i).as_int64 == (int64_t)((uint64_t)lo + i), "a range at the limits is exact");
}
/* ---- sorted, unique */
static void out_of(int64_t *v, int n, bool sort, bool uniq, int *m) {
  int k = 0;
  if (uniq) { for (int i = 0; i < n; i++) { bool seen = false; for (int j = 0; j < k; j++) if (v[j] == v[i]) { seen = true; break; } if (!seen) v[k++] = v[i]; } } else k = n;
  if (sort) for (int i = 1; i < k; i++) { int64_t t = v[i]; int j = i; while (j > 0 && v[j - 1] > t) { v[j] = v[j - 1]; j--; } v[j] = t; }
  *m = k;
}
/* the result is: the same set of values, ascending if sorted, no repeats if unique */
static void sorted_check(argus_t *a, const char *nm, int64_t *v, int n, bool sort, bool uniq) {
  int m; out_of(v, n, sort, uniq, &m);
  CHECK(argus_count(a, nm) == (size_t)m, uniq ? "repeated values are kept once" : "sorting keeps every value");
  if (sort) { for (int i = 0; i < m; i++) CHECK(argus_array_get(a, nm, (size_t)i).as_int64 == v[i], "values come in ascending order, none lost"); }
  else for (int i = 0; i < m; i++) { bool in = false; for (int j = 0; j < m; j++) in |= argus_array_get(a, nm, (size_t)j).as_int64 == v[i]; CHECK(in, "removing repeats keeps every distinct value"); }
}
static argus_optflags_t sortflags(bool *s, bool *u) { int f = 1 + (int)sx_choose(3, "flags"); *s = f & 1; *u = f & 2; return (argus_optflags_t)((*s ? FLAG_SORTED : 0) | (*u ? FLAG_UNIQUE : 0)); }
static void sort_ints(int n, int way, const char *suffix, int64_t scale) {
  bool s, u; argus_optflags_t fl = sortflags(&s, &u); argus_t a; int64_t v[8]; char *e[8]; int m = n;
  O t[] = { OPTION_ARRAY_INT('i', "ints", FLAGS(fl)), OPTION_END() }, tv[] = { POSITIONAL_MANY_INT("ints", FLAGS(fl)), OPTION_END() };
  for (int i = 0; i < n; i++) { char *d = vf_strset(1, "123456789", "digit"); bool neg = sx_choose(2, "sign"); v[i] = (neg ? -1 : 1) * ((d[0] - '0') * scale); e[i] = vf_cat(vf_cat(neg ? "-" : "", d), suffix); }
  int st;
  if (way == 0) { char *x = e[0]; for (int i = 1; i < n; i++) x = vf_cat(vf_cat(x, ","), e[i]); st = GO(a, t, S("-i"), x); }
  else if (way == 1) { char *av[20]; int c = 0; av[c++] = "prog"; for (int i = 0; i < n; i++) { av[c++] = "-i"; av[c++] = e[i]; } av[c] = 0; st = go(&a, t, c, av); }
  else { char *av[20]; int c = 0; av[c++] = "prog"; for (int i = 0; i < n; i++) av[c++] = e[i]; av[c] = 0; st = go(&a, tv, c, av); }
  CHECK(st == 0, "an ordered list is accepted"); sorted_check(&a, "ints", v, m, s, u); argus_free(&a);
}
void sort_int(void) { int w = (int)sx_choose(3, "way"); sort_ints(Q(4, 4), w, "", 1); }
void sort_int_wide(void) { int w = (int)sx_choose(3, "way"); sort_ints(2, w, "0000000000", 10000000000LL); }
void uniq_int_wide(void) {
  static const char *const e[] = {"1", "4294967297", "4294967298"}; argus_t a; O t[] = { OPTION_ARRAY_INT('i', "ints", FLAGS(FLAG_UNIQUE)), OPTION_END() };
  int x = (int)sx_choose(3, "first"), y = (int)sx_choose(3, "second"); CHECK(GO(a, t, S("-i"), vf_cat(vf_cat(e[x], ","), e[y])) == 0, "an ordered list is accepted");
  CHECK(argus_count(&a, "ints") == (x == y ? 1 : 2), "a repeated wide value is kept once, a different one is kept"); argus_free(&a);
}
/* two-digit values in one list: order by value, not by text */
void sort_int_len(void) {
  bool s, u; argus_optflags_t fl = sortflags(&s, &u); argus_t a; int64_t v[8]; char *x = 0; int n = 3;
  O t[] = { OPTION_ARRAY_INT('i', "ints", FLAGS(fl)), OPTION_END() };
  for (int i = 0; i < n; i++) { char *d = vf_strset(1 + sx_choose(2, "digits"), "12", "digit"); v[i] = d[1] ? (d[0] - '0') * 10 + d[1] - '0' : d[0] - '0'; x = x ? vf_cat(vf_cat(x, ","), d) : d; }
  CHECK(GO(a, t, S("-i"), x) == 0, "an ordered list is accepted"); sorted_check(&a, "ints", v, n, s, u); argus_free(&a);
}
void sort_float(void) {
  bool s, u; argus_optflags_t fl = sortflags(&s, &u); argus_t a; int v[8]; double w[8]; int n = 3, way = (int)sx_choose(2, "way"); char *x = 0, *av[8]; int c = 0; av[c++] = "prog";
  O t[] = { OPTION_ARRAY_FLOAT('f', "flts", FLAGS(fl)), OPTION_END() }, tv[] = { POSITIONAL_MANY_FLOAT("flts", FLAGS(fl)), OPTION_END() };
  for (int i = 0; i < n; i++) { char *d = vf_strset(2, "0123456789", "digits"); bool neg = sx_choose(2, "sign"); int q = (d[0] - '0') * 10 + d[1] - '0'; sx_assume(q); v[i] = neg ? -q : q;
    char *e = vf_cat(neg ? "-" : "", vf_cat(vf_cat(piece(d, 1), "."), d + 1)); w[i] = strtod(e, 0); av[c++] = e; x = x ? vf_cat(vf_cat(x, ","), e) : e; }
  av[c] = 0; int st = way ? go(&a, tv, c, av) : GO(a, t, vf_cat("--flts=", x)); CHECK(st == 0, "an ordered list of numbers is accepted");
  int m = n; /* the oracle orders the tenths, as integers */
  if (u) { m = 0; for (int i = 0; i < n; i++) { bool seen = false; for (int j = 0; j < m; j++) if (v[j] == v[i]) { seen = true; break; } if (!seen) { v[m] = v[i]; w[m++] = w[i]; } } }
  if (s) for (int i = 1; i < m; i++) { int p = v[i], j = i; double r = w[i]; while (j > 0 && v[j - 1] > p) { v[j] = v[j - 1]; w[j] = w[j - 1]; j--; } v[j] = p; w[j] = r; }
  CHECK(argus_count(&a, "flts") == (size_t)m, u ? "repeated numbers are kept once" : "sorting keeps every number");
  for (int i = 0; i < m; i++) { if (s) CHECK(argus_array_get(&a, "flts", (size_t)i).as_float == w[i], "numbers come in ascending order"); else { bool in = false; for (int j = 0; j < m; j++) in |= argus_array_get(&a, "flts", (size_t)j).as_float == w[i]; CHECK(in, "removing repeats keeps every distinct number"); } }
  argus_free(&a);
}
static int cmp(const char *a, const char *b) { for (; *a && *a == *b; a++, b++) {} return (unsigned char)*a - (unsigned char)*b; }
static int str_out(char **v, int n, bool sort, bool uniq) {
  int k = 0;
  for (int i = 0; i < n; i++) { bool seen = false; for (int j = 0; uniq && j < k; j++) if (cmp(v[j], v[i]) == 0) { seen = true; break; } if (!seen) v[k++] = v[i]; }
  if (sort) for (int i = 1; i < k; i++) { char *t = v[i]; int j = i; while (j > 0 && cmp(v[j - 1], t) > 0) { v[j] = v[j - 1]; j--; } v[j] = t; }
  return k;
}
void sort_str(void) {
  bool s, u; argus_optflags_t fl = sortflags(&s, &u); argus_t a; char *v[8]; int n = 3, way = (int)sx_choose(3, "way"); char *x = 0, *av[12]; int c = 0; av[c++] = "prog";
  O t[] = { OPTION_ARRAY_STRING('s', "strs", FLAGS(fl)), OPTION_END() }, tv[] = { POSITIONAL_MANY_STRING("strs", FLAGS(fl)), OPTION_END() };
  for (int i = 0; i < n; i++) { v[i] = vf_strset(1 + sx_choose(2, "length"), "abA", "text"); if (way == 1) av[c++] = "-s"; av[c++] = v[i]; x = x ? vf_cat(vf_cat(x, ","), v[i]) : v[i]; }
  av[c] = 0; int st = way == 0 ? GO(a, t, S("-s"), x) : way == 1 ? go(&a, t, c, av) : go(&a, tv, c, av); CHECK(st == 0, "an ordered list of strings is accepted");
  int m = str_out(v, n, s, u); CHECK(argus_count(&a, "strs") == (size_t)m, u ? "repeated strings are kept once" : "sorting keeps every string");
  for (int i = 0; i < m; i++) { if (s) CHECK(vf_eq(argus_array_get(&a, "strs", (size_t)i).as_string, v[i]), "strings come in ascending order"); else { bool in = false; for (int j = 0; j < m; j++) in |= cmp(argus_array_get(&a, "strs", (size_t)j).as_string, v[i]) == 0; CHECK(in, "removing repeats keeps every distinct string"); } }
  argus_free(&a);
}
/* maps: by key, by value, values unique */
void sort_map(void) {
  int t = (int)sx_choose(4, "type"), fsel = (int)sx_choose(4, "flags"), n = 3; argus_t a; char *k[4], *v[4]; char *x = 0, *front = 0;
  argus_optflags_t fl = fsel == 0 ? FLAG_SORTED_KEY : fsel == 1 ? FLAG_SORTED_VALUE : fsel == 2 ? FLAG_UNIQUE_VALUE : FLAG_SORTED_KEY | FLAG_UNIQUE_VALUE;
  O ta[] = { OPTION_MAP_STRING('s', "ms", FLAGS(fl)), OPTION_MAP_INT('i', "mi", FLAGS(fl)), OPTION_MAP_FLOAT('f', "mf", FLAGS(fl)), OPTION_MAP_BOOL('b', "mb", FLAGS(fl)), OPTION_END() };
  static const char *const nm[] = {"ms", "mi", "mf", "mb"}, *const op[] = {"-s", "-i", "-f", "-b"}, *const set[] = {"xyz", "139", "246", "01"};
  struct list l = {0}; struct pairs m = {0};
  for (int i = 0; i < n; i++) { k[i] = vf_strset(1, "pqr", "key"); v[i] = vf_strset(t ? 1 : sx_choose(2, "length"), set[t], "val"); char *e = vf_cat(vf_cat(k[i], "="), v[i]); l.s[l.n++] = e; if (i == 2) front = x; x = x ? vf_cat(vf_cat(x, ","), e) : e; }
  bool rep = sx_choose(2, "repeated"); char *rest = vf_cat(vf_cat(k[2], "="), v[2]), *opt = S(op[t]), *opt2 = S(op[t]); pairs_of(&m, &l); size_t base = sx_live();
  int st = rep ? GO(a, ta, opt, front, opt2, rest) : GO(a, ta, opt, x); CHECK(st == 0, "an ordered map is accepted");
  if (rep && (fl & FLAG_UNIQUE_VALUE)) { /* uniqueness is applied at each occurrence: only the weaker law below */ }
  argus_map_it_t it = argus_map_it(&a, nm[t]); int c = 0; const char *pk = 0; char pv = 0; bool seen[256] = {0}; (void)seen;
  char vals[4]; 
  while (argus_map_next(&it)) {
    char val = t == 0 ? it.value.as_string[0] : t == 1 ? (char)('0' + it.value.as_int64) : t == 2 ? (char)('0' + (int)it.value.as_float) : (char)('0' + it.value.as_bool);
    bool in = false; for (int i = 0; i < l.n; i++) in |= (l.s[i][0] == it.key[0]) & (l.s[i][2] == val);
    CHECK(in, "every entry of an ordered map was given");
    if (fl & FLAG_SORTED_KEY && pk) CHECK(cmp(pk, it.key) < 0, "entries come in ascending order of their keys");
    if (fl == FLAG_SORTED_VALUE && c) CHECK(pv <= val, "entries come in ascending order of their values");
    if (fl & FLAG_UNIQUE_VALUE) for (int i = 0; i < c; i++) CHECK(vals[i] != val, "no two entries share a value");
    vals[c] = val; pv = val; pk = it.key; c++;
  }
  if (!(fl & FLAG_UNIQUE_VALUE)) { CHECK(c == m.n, "sorting a map loses no entry"); map_check(&a, nm[t], &m); }
  else if (!rep) { bool dv[4]; int d = 0; for (int i = 0; i < m.n; i++) { bool dup = false; for (int j = 0; j < i; j++) dup |= m.v[j][0] == m.v[i][0]; dv[i] = !dup; d += !dup; } (void)dv; CHECK(c == d, "one entry is kept per distinct value"); }
  argus_free(&a); CHECK(sx_live() == base, "after freeing nothing is left");
}
/* numbers of every size and sign, close together and far apart */
void sort_map_float(void) {
  static const char *const tx[] = {"0.25", "0.75", "-0.25", "1.5", "1e300", "-1e300", "0.003", "0", "0.250001"}; static const double vl[] = {0.25, 0.75, -0.25, 1.5, 1e300, -1e300, 0.003, 0, 0.250001}; argus_t a; int k[3], d = 0, c = 0; bool u = sx_choose(2, "unique"); char *x = 0;
  O t[] = { OPTION_MAP_FLOAT('f', "mf", FLAGS(u ? FLAG_UNIQUE_VALUE : FLAG_SORTED_VALUE)), OPTION_END() };
  for (int i = 0; i < 3; i++) { k[i] = (int)sx_choose(ARRLEN(tx), "value"); char b[3] = { (char)('c' - i), '=', 0 }; char *e = vf_cat(b, tx[k[i]]); x = x ? vf_cat(vf_cat(x, ","), e) : e; bool dup = false; for (int j = 0; j < i; j++) dup |= k[j] == k[i]; d += !dup; }
  CHECK(GO(a, t, S("-f"), x) == 0, "an ordered map is accepted"); argus_map_it_t it = argus_map_it(&a, "mf"); double p = 0, seen[3];
  while (argus_map_next(&it)) { CHECK(c < 3, "every entry of an ordered map was given"); double v = it.value.as_float; bool in = false; for (int i = 0; i < 3; i++) in |= (it.key[0] == 'c' - i) & (v == vl[k[i]]); CHECK(in, "every entry of an ordered map was given"); if (c && !u) CHECK(p <= v, "entries come in ascending order of their values"); for (int i = 0; i < c; i++) if (u) CHECK(seen[i] != v, "no two entries share a value"); seen[c++] = p = v; }
  CHECK(c == (u ? d : 3), "one entry is kept per distinct value"); argus_free(&a);
}
void sort_map_wide(void) {
  argus_t a; int64_t v[3]; char *x = 0; int n = 3; bool u = sx_choose(2, "unique");
  O t[] = { OPTION_MAP_INT('i', "mi", FLAGS(u ? FLAG_UNIQUE_VALUE : FLAG_SORTED_VALUE)), OPTION_END() };
  for (int i = 0; i < n; i++) { char *d = vf_strset(1, "123456789", "digit"); bool neg = sx_choose(2, "sign"); v[i] = (neg ? -1 : 1) * (int64_t)((d[0] - '0') * 4294967296LL); 
    char b[2] = { (char)('a' + i), 0 }; static const char *const mul[] = {"0", "4294967296", "8589934592", "12884901888", "17179869184", "21474836480", "25769803776", "30064771072", "34359738368", "38654705664"};
    int q = (int)sx_conc((uint64_t)(d[0] - '0')); char *e = vf_cat(vf_cat(b, neg ? "=-" : "="), mul[q]); x = x ? vf_cat(vf_cat(x, ","), e) : e; }
  CHECK(GO(a, t, S("-i"), x) == 0, "a map of large integers is accepted");
  int d = 0; for (int i = 0; i < n; i++) { bool dup = false; for (int j = 0; j < i; j++) dup |= v[j] == v[i]; d += !dup; }
  CHECK(argus_count(&a, "mi") == (size_t)(u ? d : n), "integers that differ only beyond 32 bits are different values");
  argus_map_it_t it = argus_map_it(&a, "mi"); int64_t p = 0; bool first = true;
  while (argus_map_next(&it)) { if (!first && !u) CHECK(p <= it.value.as_int64, "large values come in ascending order"); p = it.value.as_int64; first = false; }
  argus_free(&a);
}
/* more elements, every type, in any order of arrival: ascending order and no loss */
void sort_many(void) {
  int n = Q(12, 20), kind = (int)sx_choose(8, "kind"), rot = (int)sx_choose((uint64_t)n, "rotation"), step = (int)sx_choose(4, "step"), dup = (int)sx_choose(3, "repeats"); bool s, u, rep = sx_choose(2, "repeated"); argus_optflags_t fl = sortflags(&s, &u); argus_t a; static const int st_[] = {1, 5, 7, 11}; char *av[64], *e[24], *x = NULL; int c = 0, v[24], k = 0; av[c++] = "prog"; char *q = vf_strset(1, "01", "sign");
  O t[] = { kind == 0 ? OPTION_ARRAY_INT('c', "col", FLAGS(fl)) : kind == 1 ? OPTION_ARRAY_FLOAT('c', "col", FLAGS(fl)) : kind == 2 ? OPTION_ARRAY_STRING('c', "col", FLAGS(fl)) : kind == 3 ? POSITIONAL_MANY_INT("col", FLAGS(fl)) : kind == 4 ? POSITIONAL_MANY_FLOAT("col", FLAGS(fl)) : kind == 5 ? POSITIONAL_MANY_STRING("col", FLAGS(fl)) : kind == 6 ? OPTION_MAP_INT('c', "col", FLAGS(s ? FLAG_SORTED_VALUE : 0)) : OPTION_MAP_STRING('c', "col", FLAGS(s ? FLAG_SORTED_KEY : 0)), OPTION_END() }; if (kind > 5 && u) sx_end();
  for (int i = 0; i < n; i++) { v[i] = (rot + i * st_[step]) % n; if (dup) v[i] /= dup; if (q[0] == '1' && kind != 2 && kind < 5) v[i] -= 3; char d[16]; int z = v[i] < 0 ? -v[i] : v[i], m = 0; if (kind >= 6) { d[m++] = (char)('a' + (kind == 7 ? v[i] : i)); d[m++] = '='; } if (v[i] < 0) d[m++] = '-'; if (kind == 2 || kind == 5) d[m++] = (char)('a' + z); else { if (z > 9) d[m++] = (char)('0' + z / 10); d[m++] = (char)('0' + z % 10); } if (kind == 1 || kind == 4) { d[m++] = '.'; d[m++] = '5'; } d[m] = 0; e[i] = S(d); if (kind >= 3 && kind <= 5) av[c++] = e[i]; else if (rep) { av[c++] = S("-c"); av[c++] = e[i]; } else x = x ? vf_cat(x, vf_cat(",", e[i])) : e[i]; }
  if (x) { av[c++] = S("-c"); av[c++] = x; } av[c] = 0; CHECK(go(&a, t, c, av) == 0, "an ordered collection is accepted"); if (kind == 7 && dup) u = true;
  if (kind < 6 && (kind == 1 || kind == 4)) for (int i = 0; i < n; i++) v[i] = v[i] < 0 ? 2 * v[i] - 1 : 2 * v[i] + 1;
  for (int i = 0; i < n; i++) { bool seen = false; for (int j = 0; u && j < k; j++) seen |= v[j] == v[i]; if (!seen) v[k++] = v[i]; } if (s) for (int i = 1; i < k; i++) { int w = v[i], j = i; while (j > 0 && v[j - 1] > w) { v[j] = v[j - 1]; j--; } v[j] = w; }
  CHECK(argus_count(&a, "col") == (size_t)k, u ? "repeated values are kept once" : "sorting keeps every value"); argus_map_it_t it = argus_map_it(&a, "col");
  for (int i = 0; i < k; i++) { argus_value_t r = argus_array_get(&a, "col", (size_t)i); if (kind > 5) { CHECK(argus_map_next(&it), "sorting keeps every value"); r = it.value; } int64_t g = kind == 0 || kind == 3 || kind == 6 ? r.as_int64 : kind == 1 || kind == 4 ? (int64_t)(r.as_float * 2) : kind == 7 ? it.key[0] - 'a' : r.as_string[0] - 'a'; if (s) CHECK(g == v[i], "values come in ascending order, none lost"); else { bool in = false; for (int j = 0; j < k; j++) in |= g == v[j]; CHECK(in, "removing repeats keeps distinct values only"); } }
  sx_reach(s ? "sorted" : "unique"); argus_free(&a);
}
/* long texts and keys that differ in one place */
void sort_long(void) {
  bool s, u; argus_optflags_t fl = sortflags(&s, &u); argus_t a; int n = somelen(), at = place(n), way = (int)sx_choose(3, "way"); char *v[3], *x = NULL; 
  O t[] = { OPTION_ARRAY_STRING('s', "strs", FLAGS(fl)), OPTION_MAP_STRING('m', "map", FLAGS((s ? FLAG_SORTED_KEY : 0) | (u ? FLAG_UNIQUE_VALUE : 0))), OPTION_MAP_STRING('w', "wap", FLAGS(FLAG_SORTED_VALUE)), OPTION_END() }; if (way == 2 && u) sx_end();
  for (int i = 0; i < 3; i++) { v[i] = longish(i == 1 ? n - 1 : n, i == 1 && at == n - 1 ? n - 2 : at, "abA", 'x'); char b[3] = { (char)('c' - i), '=', 0 }; char *e = way == 0 ? v[i] : way == 2 ? vf_cat(S(b), v[i]) : vf_cat(u ? S(b) : v[i], u ? v[i] : "=1"); if (way == 1 && !u) e = vf_cat(v[i], "=1"); x = x ? vf_cat(x, vf_cat(",", e)) : e; }
  static const char *const op[] = {"-s", "-m", "-w"}; CHECK(GO(a, t, S(op[way]), x) == 0, "an ordered collection is accepted"); bool byk = way == 1 && !u; int m = str_out(v, 3, s && !(way == 1 && u), u || byk); if (way == 1 && s && u) sx_end();
  CHECK(argus_count(&a, way == 0 ? "strs" : way == 1 ? "map" : "wap") == (size_t)m, u ? "repeated texts are kept once" : "sorting keeps every text"); argus_map_it_t it = argus_map_it(&a, way == 1 ? "map" : "wap");
  for (int i = 0; i < m; i++) { const char *g; if (way == 0) g = argus_array_get(&a, "strs", (size_t)i).as_string; else { CHECK(argus_map_next(&it), "sorting keeps every text"); g = byk ? it.key : it.value.as_string; } if (s) CHECK(vf_eq(g, v[i]), "texts come in ascending order"); else { bool in = false; for (int j = 0; j < m; j++) in |= cmp(g, v[j]) == 0; CHECK(in, "removing repeats keeps every distinct text"); } }
  argus_free(&a);
}
/* ---- collections with everything else an option can declare, by every way they can arrive */
static void plus(O *o) {
  static const unsigned ds[] = {15, 1, 2, 12}; unsigned d = ds[sx_choose(Q(2, 4), "declared")]; if (d & 1) { validator_entry_t *e = vf_mem(sizeof *e), **l = vf_mem(2 * sizeof *l); *e = *V_COUNT(0, INT64_MAX); l[0] = e; l[1] = NULL; o->validators = l; }
  if (d & 2) { o->flags |= FLAG_ENV_OVERRIDE; o->env_name = "UNSET"; } if (d & 4) { o->hint = "HINT"; o->help = "help"; } if (d & 8) o->flags |= o->type == TYPE_POSITIONAL ? FLAG_OPTIONAL : FLAG_HIDDEN;
}
static int deliver(argus_t *a, O *t, int way, int n, char **v) {
  char *av[12]; int c = 0; av[c++] = "prog"; if (way == 3) { vf_env("GIVEN", v[0]); t[0].env_name = "GIVEN"; } else for (int i = 0; i < n; i++) { if (way == 0) { av[c++] = S("-c"); av[c++] = v[i]; } else if (way == 1) av[c++] = vf_cat("--coll=", v[i]); else if (way == 2) av[c++] = vf_cat("-c", v[i]); else av[c++] = v[i]; } av[c] = 0; return go(a, t, c, av);
}
void array_declared(void) {
  argus_t a; struct list l = {0}; int k = (int)sx_choose(6, "kind"), way = k >= 3 ? 4 : (int)sx_choose(4, "way"), n = way == 3 ? 1 : 1 + (int)sx_choose(2, "times"); O t[] = { OPTION_FLAG('x', "xx"), OPTION_END() };
  switch (k) { case 0: t[0] = (O)OPTION_ARRAY_STRING('c', "coll"); break; case 1: t[0] = (O)OPTION_ARRAY_INT('c', "coll"); break; case 2: t[0] = (O)OPTION_ARRAY_FLOAT('c', "coll"); break; case 3: t[0] = (O)POSITIONAL_MANY_STRING("coll"); break; case 4: t[0] = (O)POSITIONAL_MANY_INT("coll"); break; default: t[0] = (O)POSITIONAL_MANY_FLOAT("coll"); } plus(&t[0]);
  char *v[2]; for (int i = 0; i < n; i++) { v[i] = k >= 3 ? vf_strset(1, "0123456789", "digit") : k == 0 ? vf_strset(1 + sx_choose(n == 1 ? 4 : 3, "length"), "ab,", "value") : vf_strset(1 + sx_choose(n == 1 ? 4 : Q(2, 3), "length"), k == 1 ? "12,-" : "15,", "value"); }
  int st = deliver(&a, t, way, n, v); for (int i = 0; i < n; i++) elements(&l, v[i]);
  if (k % 3 == 1) { int64_t out[128]; int m = 0; for (int i = 0; i < l.n; i++) if (!ints_of(out, &m, l.s[i])) { CHECK(st == ARGUS_ERROR_INVALID_FORMAT, "a list with a malformed integer or range is rejected"); return; } CHECK(st == 0, "integers and ranges are accepted"); CHECK(argus_count(&a, "coll") == (size_t)m, "a collection holds one value per element given"); for (int i = 0; i < m; i++) CHECK(argus_array_get(&a, "coll", (size_t)i).as_int64 == out[i], "elements are kept in the order given"); }
  else { CHECK(st == 0, "a list is accepted"); if (k % 3 == 0) strings_are(&a, "coll", &l); else { CHECK(argus_count(&a, "coll") == (size_t)l.n, "a collection holds one value per element given"); for (int i = 0; i < l.n; i++) { double d = strtod(l.s[i], 0); CHECK(argus_array_get(&a, "coll", (size_t)i).as_float == d, "elements are kept in the order given"); } } }
  CHECK(argus_is_set(&a, "coll"), "a list given is set"); argus_free(&a);
}
void map_declared(void) {
  static const char *const nm[] = {"ms", "mi", "mf", "mb"}, *const set[] = {"yz", "17", "29", "yn"}; argus_t a; struct list l = {0}; struct pairs m = {0}; int k = (int)sx_choose(4, "kind"), way = (int)sx_choose(4, "way"), n = way == 3 ? 1 : 1 + (int)sx_choose(2, "times"); O t[] = { OPTION_FLAG('x', "xx"), OPTION_END() };
  switch (k) { case 0: t[0] = (O)OPTION_MAP_STRING('c', "coll"); break; case 1: t[0] = (O)OPTION_MAP_INT('c', "coll"); break; case 2: t[0] = (O)OPTION_MAP_FLOAT('c', "coll"); break; default: t[0] = (O)OPTION_MAP_BOOL('c', "coll"); } plus(&t[0]);
  char *v[2]; for (int i = 0; i < n; i++) { v[i] = vf_cat(vf_cat(vf_strset(1, "kl", "key"), "="), vf_strset(1, set[k], "val")); if (sx_choose(2, "two")) v[i] = vf_cat(v[i], vf_cat(vf_cat(vf_cat(",", vf_strset(1, "kl", "key")), "="), vf_strset(1, set[k], "val"))); }
  int st = deliver(&a, t, way, n, v); for (int i = 0; i < n; i++) elements(&l, v[i]); pairs_of(&m, &l); CHECK(st == 0, "a map is accepted"); CHECK(argus_is_set(&a, "coll"), "a map given is set"); CHECK(argus_count(&a, "coll") == (size_t)m.n, "a map holds one entry per distinct key");
  for (int i = 0; i < m.n; i++) { argus_value_t x = argus_map_get(&a, "coll", m.k[i]); CHECK(a.error_code == 0, "every key given can be looked up"); CHECK(k == 0 ? vf_eq(x.as_string, m.v[i]) : k == 1 ? x.as_int64 == m.v[i][0] - '0' : k == 2 ? x.as_float == m.v[i][0] - '0' : x.as_bool == (m.v[i][0] == 'y'), "a key has the value given last"); } (void)nm; argus_free(&a);
}
void sort_declared(void) {
  bool s, u; argus_optflags_t fl = sortflags(&s, &u); argus_t a; int k = (int)sx_choose(4, "kind"), way = k >= 2 ? 4 : (int)sx_choose(4, "way"), n = way == 3 ? 1 : 1 + (int)sx_choose(2, "times"); int64_t w[8]; char *sv[8]; int m = 0; O t[] = { OPTION_FLAG('x', "xx"), OPTION_END() };
  switch (k) { case 0: t[0] = (O)OPTION_ARRAY_STRING('c', "coll", FLAGS(fl)); break; case 1: t[0] = (O)OPTION_ARRAY_INT('c', "coll", FLAGS(fl)); break; case 2: t[0] = (O)POSITIONAL_MANY_STRING("coll", FLAGS(fl)); break; default: t[0] = (O)POSITIONAL_MANY_INT("coll", FLAGS(fl)); } plus(&t[0]);
  char *v[3]; if (way == 4) n = 1 + n; for (int i = 0; i < n; i++) { v[i] = NULL; for (int j = 0; j < (way == 4 ? 1 : n == 1 ? 3 : 2); j++) { char *d = vf_strset(1, "259", "digit"); sv[m] = d; w[m++] = d[0] - '0'; v[i] = v[i] ? vf_cat(v[i], vf_cat(",", d)) : d; } }
  int st = deliver(&a, t, way, n, v); CHECK(st == 0, "an ordered list is accepted"); if (k & 1) sorted_check(&a, "coll", w, m, s, u);
  else { int c = str_out(sv, m, s, u); CHECK(argus_count(&a, "coll") == (size_t)c, u ? "repeated strings are kept once" : "sorting keeps every string"); for (int i = 0; i < c; i++) { char *g = argus_array_get(&a, "coll", (size_t)i).as_string; if (s) CHECK(vf_eq(g, sv[i]), "strings come in ascending order"); else { bool in = false; for (int j = 0; j < c; j++) in |= cmp(g, sv[j]) == 0; CHECK(in, "removing repeats keeps every distinct string"); } } }
  argus_free(&a);
}
