/* Consumption of the command line: a reference reading of every argument. */
#include "common.h"
#include <stdlib.h>
enum { NONE, STR1, STR2, INT1, MANY, MANYI, FLT1, MANYF, KINDS };
static O base[] = { OPTION_FLAG('a', "xa"), OPTION_FLAG('b', "y"), OPTION_STRING('o', "zo"), OPTION_STRING('p', NULL), OPTION_END(), OPTION_END(), OPTION_END() };
struct want { int st; bool a, b; char *o, *p; char *pos[8]; int np; };
static bool name_is(const char *s, size_t n, const char *w) { for (size_t i = 0; i < n; i++) { if (!w[i]) return false; if (s[i] != w[i]) return false; } return w[n] == 0; }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static void ref(struct want *w, int kind, int n, char **v) {
  bool only = false; int cap = kind == NONE ? 0 : kind == STR2 ? 2 : kind == MANY || kind == MANYI || kind == MANYF ? 8 : 1;
  for (int i = 0; i < n; i++) {
    char *s = v[i];
    if (!only && s[0] == '-' && s[1] == '-' && !s[2]) { only = true; continue; }
    if (!only && s[0] == '-' && s[1] == '-') {
      char *q = s + 2; size_t k = 0; while (q[k] && q[k] != '=') k++;
      bool eq = q[k] == '=';
      if (name_is(q, k, "xa") || name_is(q, k, "y")) { if (eq) { w->st = ARGUS_ERROR_INVALID_ARGUMENT; return; } if (q[0] == 'x') w->a = true; else w->b = true; continue; }
      if (!name_is(q, k, "zo")) { w->st = ARGUS_ERROR_INVALID_ARGUMENT; return; }
      if (eq) w->o = q + k + 1; else if (i + 1 < n) w->o = v[++i]; else { w->st = ARGUS_ERROR_MISSING_VALUE; return; }
      continue;
    }
    bool num = ((kind == INT1 || kind == FLT1) && w->np < 1) || kind == MANYI || kind == MANYF;
    if (!only && s[0] == '-' && s[1] && !(num && (digit(s[1]) || (s[1] == '.' && digit(s[2]))))) {
      for (char *q = s + 1; *q; q++) {
        if (*q == 'a') w->a = true; else if (*q == 'b') w->b = true;
        else if (*q == 'o' || *q == 'p') {
          char **d = *q == 'o' ? &w->o : &w->p;
          if (q[1]) *d = q + 1; else if (i + 1 < n) *d = v[++i]; else { w->st = ARGUS_ERROR_MISSING_VALUE; return; }
          break;
        } else { w->st = ARGUS_ERROR_INVALID_ARGUMENT; return; }
      }
      continue;
    }
    if (w->np >= cap) { w->st = ARGUS_ERROR_INVALID_ARGUMENT; return; }
    w->pos[w->np++] = s;
  }
}
/* the integer an operand spells, when it has the plain form the reference judges */
static bool plain_int(const char *s, long long *out) {
  const char *p = s; if (*p == '-') p++;
  if (!*p) return false;
  for (; *p; p++) if (!digit(*p)) return false;
  *out = strtoll(s, 0, 10); return true;
}
static bool plain_dec(const char *s, double *out) {
  const char *p = s; int d = 0; if (*p == '-') p++;
  for (; digit(*p); p++) d++;
  if (*p == '.') for (p++; digit(*p); p++) d++;
  if (*p || !d) return false;
  *out = strtod(s, 0); return true;
}
static unsigned deco; /* what else is declared: defaults, limits that allow everything, variables, attributes that only concern the display */
static void adorn(O *o) {
  if (deco & 1) for (int i = 2; i < 4; i++) { o[i].have_default = o[i].is_set = true; o[i].value.as_string = "dd"; o[i].default_value = o[i].value; }
  if (deco & 2) for (int i = 2; i < 4; i++) { validator_entry_t *e = vf_mem(sizeof *e), **l = vf_mem(2 * sizeof *l); *e = *V_LENGTH(0, 99); l[0] = e; l[1] = NULL; o[i].validators = l; }
  if (deco & 4) for (int i = 0; i < 4; i++) { static char nm[4][3] = {"V0", "V1", "V2", "V3"}; o[i].env_name = nm[i]; o[i].flags |= FLAG_ENV_OVERRIDE; }
  if (deco & 8) for (int i = 0; i < 4; i++) o[i].flags |= FLAG_HIDDEN;
  if (deco & 16) for (int i = 0; o[i].type != TYPE_NONE; i++) { o[i].hint = "HINT"; o[i].help = "text"; }
}
static void check(int kind, int n, char **v) {
  O *o = TAB(base); int k = 4;
  if (kind == STR1) o[k++] = (O)POSITIONAL_STRING("p1", FLAGS(FLAG_OPTIONAL));
  if (kind == STR2) { o[k++] = (O)POSITIONAL_STRING("p1", FLAGS(FLAG_OPTIONAL)); o[k++] = (O)POSITIONAL_STRING("p2", FLAGS(FLAG_OPTIONAL)); }
  if (kind == INT1) o[k++] = (O)POSITIONAL_INT("p1", FLAGS(FLAG_OPTIONAL));
  if (kind == MANY) o[k++] = (O)POSITIONAL_MANY_STRING("p1", FLAGS(FLAG_OPTIONAL));
  if (kind == MANYI) o[k++] = (O)POSITIONAL_MANY_INT("p1", FLAGS(FLAG_OPTIONAL));
  if (kind == FLT1) o[k++] = (O)POSITIONAL_FLOAT("p1", FLAGS(FLAG_OPTIONAL));
  if (kind == MANYF) o[k++] = (O)POSITIONAL_MANY_FLOAT("p1", FLAGS(FLAG_OPTIONAL));
  if (deco) adorn(o);
  struct want w = {0}; argus_t a; char *av[8]; av[0] = "prog";
  for (int i = 0; i < n; i++) av[i + 1] = v[i];
  av[n + 1] = 0;
  ref(&w, kind, n, v);
  if (kind == INT1 || kind == MANYI) { long long x; for (int i = 0; i < w.np; i++) if (!plain_int(w.pos[i], &x)) { sx_end(); } }
  if (kind == FLT1 || kind == MANYF) { double x; for (int i = 0; i < w.np; i++) if (!plain_dec(w.pos[i], &x)) { sx_end(); } }
  int st = go(&a, o, n + 1, av);
  sx_obs("status", (uint64_t)st);
  if (w.st) { sx_reach("rejected"); CHECK(st == w.st, "a command line the reference reading rejects is rejected with the matching status"); return; }
  CHECK(st == 0, "a command line the reference reading accepts is accepted");
  sx_reach("accepted");
  CHECK(argus_is_set(&a, "xa") == w.a && argus_get(&a, "xa").as_bool == w.a, "the first flag is set exactly when it was given");
  CHECK(argus_is_set(&a, "y") == w.b && argus_get(&a, "y").as_bool == w.b, "the second flag is set exactly when it was given");
  if (deco & 1) { if (!w.o) w.o = S("dd"); if (!w.p) w.p = S("dd"); }
  CHECK(argus_is_set(&a, "zo") == (w.o != 0), "a string option is set exactly when it was given");
  CHECK(argus_is_set(&a, "p") == (w.p != 0), "a short-only option is set exactly when it was given");
  if (w.o) CHECK(vf_eq(argus_get(&a, "zo").as_string, w.o), "a string option has the value the last occurrence gave");
  if (w.p) CHECK(vf_eq(argus_get(&a, "p").as_string, w.p), "a short-only option has the value the last occurrence gave");
  if (w.np) sx_reach("operands");
  if (kind == STR1 || kind == STR2) for (int i = 0; i < (kind == STR2 ? 2 : 1); i++) {
    const char *nm = i ? "p2" : "p1";
    CHECK(argus_is_set(&a, nm) == (w.np > i), "a positional is set exactly when an operand is left for it");
    if (w.np > i) CHECK(vf_eq(argus_get(&a, nm).as_string, w.pos[i]), "operands fill the positionals in order");
  }
  if (kind == INT1) { long long x = 0; CHECK(argus_is_set(&a, "p1") == (w.np > 0), "a numeric positional is set exactly when an operand is left for it"); if (w.np && plain_int(w.pos[0], &x)) CHECK(argus_get(&a, "p1").as_int64 == x, "a numeric operand, negative or not, reaches the positional"); }
  if (kind == FLT1) { double x = 0; CHECK(argus_is_set(&a, "p1") == (w.np > 0), "a numeric positional is set exactly when an operand is left for it"); if (w.np && plain_dec(w.pos[0], &x)) CHECK(argus_get(&a, "p1").as_float == x, "a numeric operand, negative or not, reaches the positional"); }
  if (kind == MANYF) { CHECK(argus_count(&a, "p1") == (size_t)w.np, "a repeating positional holds one value per operand"); for (int i = 0; i < w.np; i++) { double x = 0; plain_dec(w.pos[i], &x); CHECK(argus_array_get(&a, "p1", (size_t)i).as_float == x, "a repeating numeric positional keeps negative operands in order"); } }
  if (kind == MANY || kind == MANYI) {
    CHECK(argus_count(&a, "p1") == (size_t)w.np, "a repeating positional holds one value per operand");
    for (int i = 0; i < w.np; i++) {
      if (kind == MANY) CHECK(vf_eq(argus_array_get(&a, "p1", (size_t)i).as_string, w.pos[i]), "a repeating positional keeps the operands in order");
      else { long long x = 0; plain_int(w.pos[i], &x); CHECK(argus_array_get(&a, "p1", (size_t)i).as_int64 == x, "a repeating numeric positional keeps negative operands in order"); }
    }
  }
  argus_free(&a);
}
void consume1(void) { int k = (int)sx_choose(KINDS, "kind"); char *v[1] = { vf_strmax(Q(9, 12), "arg") }; check(k, 1, v); }
void consume2(void) { int k = (int)sx_choose(KINDS, "kind"); char *v[2] = { vf_strmax(Q(5, 6), "arg1"), vf_strmax(Q(5, 6), "arg2") }; check(k, 2, v); }
void consume3(void) { int k = (int)sx_choose(KINDS, "kind"); char *v[3] = { vf_strmax(Q(3, 4), "arg1"), vf_strmax(Q(3, 4), "arg2"), vf_strmax(Q(3, 4), "arg3") }; check(k, 3, v); }
void consume4(void) { int k = (int)sx_choose(KINDS, "kind"); char *v[4] = { vf_strmax(Q(2, 3), "arg1"), vf_strmax(Q(2, 3), "arg2"), vf_strmax(Q(2, 3), "arg3"), vf_strmax(Q(2, 3), "arg4") }; check(k, 4, v); }
/* operands of several types in any order: the type of the next one decides how a negative number is read */
void consume_mixed(void) {
  static const char set[] = "-15.a"; int n = 1 + (int)sx_choose(4, "positionals"), kd[4], given = 1 + (int)sx_choose(4, "operands"); if (given > n + 1) sx_end(); O t[7]; int c = 0; t[c++] = (O)OPTION_FLAG('a', "xa"); t[c++] = (O)OPTION_FLAG('1', "one");
  static char *const nm[] = {"p0", "p1", "p2", "p3"}; for (int i = 0; i < n; i++) { kd[i] = (int)sx_choose(i == n - 1 ? 6 : 4, "kind"); O x = kd[i] == 0 ? (O)POSITIONAL_STRING(nm[i]) : kd[i] == 1 ? (O)POSITIONAL_INT(nm[i]) : kd[i] == 2 ? (O)POSITIONAL_FLOAT(nm[i]) : kd[i] == 3 ? (O)POSITIONAL_BOOL(nm[i]) : kd[i] == 4 ? (O)POSITIONAL_MANY_STRING(nm[i]) : (O)POSITIONAL_MANY_INT(nm[i]); x.flags = FLAG_OPTIONAL; t[c++] = x; } t[c] = (O)OPTION_END();
  argus_t a; char *v[4], *av[6], *pos[4]; av[0] = "prog"; int np = 0, want = 0; bool fa = false, f1 = false, odd = false; for (int i = 0; i < given; i++) { v[i] = sx_choose(2, "negative") ? (i == given - 1 ? vf_cat("-", vf_strset(1 + sx_choose(2, "length"), set, "number")) : S("-1")) : S("1"); av[i + 1] = v[i]; } av[given + 1] = 0;
  for (int i = 0; i < given && !want; i++) { int k = np < n ? kd[np] : n && kd[n - 1] >= 4 ? kd[n - 1] : -1; bool num = k == 1 || k == 2 || k == 5; char *s = v[i];
    if (s[0] == '-' && s[1] == '-') { odd = true; break; }
    if (s[0] == '-' && s[1] && !(num && (digit(s[1]) || (s[1] == '.' && digit(s[2]))))) { for (char *q = s + 1; *q; q++) { if (*q == 'a') fa = true; else if (*q == '1') f1 = true; else { want = ARGUS_ERROR_INVALID_ARGUMENT; break; } } continue; }
    if (k < 0) { want = ARGUS_ERROR_INVALID_ARGUMENT; break; }
    long long x; double d; if (((k == 1 || k == 5) && !plain_int(s, &x)) || (k == 2 && !plain_dec(s, &d)) || (k == 3 && !vf_eq(s, "1"))) { odd = true; break; } pos[np++] = s; }
  if (odd) sx_end(); int st = go(&a, TAB(t), given + 1, av);
  if (want) { sx_reach("rejected"); CHECK(st == want, "a command line the reference reading rejects is rejected with the matching status"); return; } CHECK(st == 0, "a command line the reference reading accepts is accepted"); sx_reach("accepted"); CHECK(argus_is_set(&a, "xa") == fa && argus_is_set(&a, "one") == f1, "a flag is set exactly when it was given");
  for (int i = 0; i < n; i++) { CHECK(argus_is_set(&a, nm[i]) == (np > i), "a positional is set exactly when an operand is left for it"); if (np <= i) continue; long long x = 0; double d = 0; argus_value_t g = argus_get(&a, nm[i]); switch (kd[i]) { case 0: CHECK(vf_eq(g.as_string, pos[i]), "operands fill the positionals in order"); break; case 1: plain_int(pos[i], &x); CHECK(g.as_int64 == x, "a numeric operand, negative or not, reaches the positional"); break; case 2: plain_dec(pos[i], &d); CHECK(g.as_float == d, "a numeric operand, negative or not, reaches the positional"); break; case 3: CHECK(g.as_bool, "operands fill the positionals in order"); break; default: CHECK(argus_count(&a, nm[i]) == (size_t)(np - i), "a repeating positional holds one value per operand"); for (int j = i; j < np; j++) { argus_value_t e = argus_array_get(&a, nm[i], (size_t)(j - i)); plain_int(pos[j], &x); CHECK(kd[i] == 4 ? vf_eq(e.as_string, pos[j]) : e.as_int64 == x, "a repeating positional keeps the operands in order"); } } }
  argus_free(&a);
}
/* the same reading, with everything else an option can declare */
void consume_declared(void) { deco = 1 + (unsigned)sx_choose(31, "declared"); int k = (int)sx_choose(KINDS, "kind"), n = 1 + (int)sx_choose(2, "arguments"); char *v[2]; for (int i = 0; i < n; i++) v[i] = vf_strset(sx_choose(n == 1 ? Q(6, 7) : Q(3, 4), "length"), "-abopzx=5", "arg"); check(k, n, v); }
