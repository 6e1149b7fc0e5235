/* Limits, validators, relations between options. */
#include "common.h"
#include <stdlib.h>
#include <string.h>
/* ---- P16: limits */
static int64_t any64(const char *n) { return (int64_t)sx_var(64, n); }
static void limited(int st, bool ok, int err, const char *yes, const char *no) { if (ok) { sx_reach("within"); CHECK(st == 0, yes); } else { sx_reach("outside"); CHECK(st == err, no); } }
void range_default(void) { /* the value at full width */
  int64_t lo = any64("lo"), hi = any64("hi"), z = any64("value"); argus_t a; bool opt = sx_choose(2, "option");
  O t[] = { OPTION_INT('n', "num", DEFAULT(z), VALIDATOR(V_RANGE(lo, hi))), OPTION_END() }, p[] = { POSITIONAL_INT("num", FLAGS(FLAG_OPTIONAL), DEFAULT(z), VALIDATOR(V_RANGE(lo, hi))), OPTION_END() };
  int st = go(&a, opt ? t : p, 1, ARGS(NULL));
  limited(st, lo <= z && z <= hi, ARGUS_ERROR_INVALID_RANGE, "an integer within its range is accepted", "an integer outside its range is rejected");
  if (st == 0) CHECK(argus_get(&a, "num").as_int64 == z, "a limit does not change the value");
}
void range_text(void) { /* the value as text, every way */
  int64_t lo = any64("lo"), hi = any64("hi"); argus_t a; int way = (int)sx_choose(4, "way"); static const int len[] = {1, 5, 10, 19, 2, 3, 12, 18}; int n = len[sx_choose(Q(4, 8), "digits")];
  char *d = vf_mem((size_t)n + 2), *q = d; if (sx_choose(2, "sign")) *q++ = '-'; sx_bytes(q, (size_t)n, "digits"); for (int i = 0; i < n; i++) sx_assume(q[i] >= '0' && q[i] <= '9'); q[n] = 0;
  for (int i = 0; i + 4 < n; i++) q[i] = "922337203685477"[i]; /* the last four digits vary, up to the limits of 64 bits */ if (n == 19) sx_assume(q[15] < '5');
  int64_t v = strtoll(d, 0, 10); int st;
  O t[] = { OPTION_INT('n', "num", ENV_VAR("NUM"), DEFAULT(5), VALIDATOR(V_RANGE(lo, hi))), OPTION_END() }, p[] = { POSITIONAL_INT("num", VALIDATOR(V_RANGE(lo, hi))), OPTION_END() };
  if (way == 0) st = GO(a, t, S("-n"), d); else if (way == 1) st = GO(a, t, vf_cat("--num=", d)); else if (way == 2) { vf_env("NUM", d); st = go(&a, t, 1, ARGS(NULL)); } else st = GO(a, p, d);
  limited(st, lo <= v && v <= hi, ARGUS_ERROR_INVALID_RANGE, "an integer within its range is accepted", "an integer outside its range is rejected");
  if (st == 0) CHECK(argus_get(&a, "num").as_int64 == v, "a limit does not change the value");
}
void range_float(void) { /* every double against every pair of bounds a double can hold */
  int64_t lo = any64("lo"), hi = any64("hi"), m = 1ll << 53; double z = sx_fvar("value"); argus_t a; sx_assume(lo >= -m && lo <= m && hi >= -m && hi <= m);
  O t[] = { OPTION_FLOAT('n', "num", DEFAULT(z), VALIDATOR(V_RANGE(lo, hi))), OPTION_END() };
  int st = go(&a, t, 1, ARGS(NULL)); limited(st, z >= (double)lo && z <= (double)hi, ARGUS_ERROR_INVALID_RANGE, "a number within its range is accepted", "a number outside its range is rejected");
}
void range_float_text(void) {
  static const int64_t set[] = {0, -3, 5, 10, -1}; int64_t lo = set[sx_choose(3, "lo")], hi = set[1 + sx_choose(4, "hi")]; argus_t a; int way = (int)sx_choose(3, "way"); bool neg = sx_choose(2, "sign"); size_t n = 1 + sx_choose(Q(2, 3), "digits");
  char *d = vf_strset(n + 1, "0123456789", "digits"), *x = vf_mem(n + 4), *q = x; int64_t tenths = 0; if (neg) *q++ = '-';
  for (size_t i = 0; i <= n; i++) { if (i == n) *q++ = '.'; *q++ = d[i]; tenths = tenths * 10 + (d[i] - '0'); } *q = 0; if (neg) tenths = -tenths;
  O t[] = { OPTION_FLOAT('n', "num", ENV_VAR("NUM"), VALIDATOR(V_RANGE(lo, hi))), OPTION_END() }, p[] = { POSITIONAL_FLOAT("num", VALIDATOR(V_RANGE(lo, hi))), OPTION_END() }; int st;
  if (way == 0) { vf_env("NUM", x); st = go(&a, t, 1, ARGS(NULL)); } else if (way == 1) st = GO(a, t, S("-n"), x); else st = GO(a, p, S("--"), x);
  limited(st, lo <= hi && lo * 10 <= tenths && tenths <= hi * 10, ARGUS_ERROR_INVALID_RANGE, "a number within its range is accepted", "a number outside its range is rejected");
}
void length(void) {
  int64_t lo = any64("lo"), hi = any64("hi"); argus_t a; int way = (int)sx_choose(4, "way"); char *v = vf_strmax(Q(6, 10), "text"); int st; int64_t n = (int64_t)vf_len(v);
  O t[] = { OPTION_STRING('s', "str", ENV_VAR("STR"), VALIDATOR(V_LENGTH(lo, hi))), OPTION_END() }, d[] = { OPTION_STRING('s', "str", DEFAULT(v), VALIDATOR(V_LENGTH(lo, hi))), OPTION_END() }, p[] = { POSITIONAL_STRING("str", VALIDATOR(V_LENGTH(lo, hi))), OPTION_END() };
  if (way == 0) st = GO(a, t, vf_cat("--str=", v)); else if (way == 1) { vf_env("STR", v); st = go(&a, t, 1, ARGS(NULL)); } else if (way == 2) st = go(&a, d, 1, ARGS(NULL)); else st = GO(a, p, S("--"), v);
  limited(st, lo >= 0 && lo <= n && n <= hi, ARGUS_ERROR_INVALID_RANGE, "a text within its length limits is accepted", "a text outside its length limits is rejected");
}
void count(void) {
  int64_t lo = any64("lo"), hi = any64("hi"); argus_t a; int kind = (int)sx_choose(5, "kind"), n = (int)sx_choose(Q(6, 12), "elements"), st; bool rep = sx_choose(2, "repeated");
  O t[] = { kind == 0 ? OPTION_ARRAY_STRING('c', "col", VALIDATOR(V_COUNT(lo, hi))) : kind == 1 ? OPTION_ARRAY_INT('c', "col", VALIDATOR(V_COUNT(lo, hi))) : kind == 2 ? OPTION_MAP_INT('c', "col", VALIDATOR(V_COUNT(lo, hi))) : kind == 3 ? OPTION_MAP_STRING('c', "col", VALIDATOR(V_COUNT(lo, hi))) : POSITIONAL_MANY_STRING("col", FLAGS(FLAG_OPTIONAL), VALIDATOR(V_COUNT(lo, hi))), OPTION_END() };
  char *av[32]; int c = 0; char *x = S(""); av[c++] = "prog";
  for (int i = 0; i < n; i++) { char e[4] = { (char)('a' + i), '=', '1', 0 }; char *m = kind < 2 ? S("7") : S(e); if (kind == 4) av[c++] = m; else if (rep) { av[c++] = S("-c"); av[c++] = m; } else x = i ? vf_cat(vf_cat(x, ","), m) : m; }
  if (!rep && kind != 4 && n) { av[c++] = S("-c"); av[c++] = x; } av[c] = 0; st = go(&a, t, c, av);
  if (n == 0) { CHECK(st == 0, "a collection that was not given has no count to limit"); return; }
  limited(st, lo >= 0 && lo <= n && n <= hi, ARGUS_ERROR_INVALID_RANGE, "a collection within its count limits is accepted", "a collection outside its count limits is rejected");
}
/* long texts and large collections count in full */
static char *long_text(int n) { char *v = vf_mem((size_t)n + 1); for (int i = 0; i < n; i++) v[i] = 'x'; v[n] = 0; return v; }
void length_long(void) {
  static const int len[] = {31, 32, 63, 64, 127, 128, 129, 200, 255, 256, 257, 300, 511, 1024, 4096, 32768, 65536, 65537}; int n = len[sx_choose(ARRLEN(len), "length")], way = (int)sx_choose(3, "way"), st; int64_t lo = any64("lo"), hi = any64("hi"); argus_t a; char *v = long_text(n);
  O t[] = { OPTION_STRING('s', "str", VALIDATOR(V_LENGTH(lo, hi))), OPTION_END() }, d[] = { OPTION_STRING('s', "str", DEFAULT(v), VALIDATOR(V_LENGTH(lo, hi))), OPTION_END() }, p[] = { POSITIONAL_STRING("str", VALIDATOR(V_LENGTH(lo, hi))), OPTION_END() }; vf_vague = 1;
  if (way == 0) st = GO(a, t, vf_cat("-s", v)); else if (way == 1) st = go(&a, d, 1, ARGS(NULL)); else st = GO(a, p, v);
  limited(st, lo >= 0 && lo <= n && n <= hi, ARGUS_ERROR_INVALID_RANGE, "a text within its length limits is accepted", "a text outside its length limits is rejected");
}
void count_many(void) {
  static const int num[] = {7, 8, 9, 16, 17, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257}; int n = num[sx_choose(ARRLEN(num), "elements")], kind = (int)sx_choose(4, "kind"), c = 0, st; int64_t lo = any64("lo"), hi = any64("hi"); argus_t a; char *av[300]; av[c++] = "prog"; vf_vague = 1;
  O t[] = { kind == 0 ? OPTION_ARRAY_INT('c', "col", VALIDATOR(V_COUNT(lo, hi))) : kind == 1 ? OPTION_MAP_INT('c', "col", VALIDATOR(V_COUNT(lo, hi))) : kind == 2 ? POSITIONAL_MANY_INT("col", VALIDATOR(V_COUNT(lo, hi))) : OPTION_ARRAY_STRING('c', "col", VALIDATOR(V_COUNT(lo, hi))), OPTION_END() };
  char *x = vf_mem((size_t)n * 6 + 4), *q = x; *q++ = '-'; *q++ = 'c'; for (int i = 0; i < n; i++) { char e[6] = { (char)('a' + i % 26), (char)('a' + i / 26 % 26), '=', '1', 0 }; if (kind == 2) av[c++] = S("7"); else { if (i) *q++ = ','; if (kind == 1) for (int k = 0; k < 4; k++) *q++ = e[k]; else *q++ = '7'; } } *q = 0; if (kind != 2) av[c++] = x; av[c] = 0; st = go(&a, t, c, av);
  limited(st, lo >= 0 && lo <= n && n <= hi, ARGUS_ERROR_INVALID_RANGE, "a collection within its count limits is accepted", "a collection outside its count limits is rejected");
}
void choice_str(void) {
  char *c[3], *v = vf_strmax(Q(3, 4), "text"); argus_t a; int way = (int)sx_choose(3, "way"), st; for (int i = 0; i < 3; i++) c[i] = vf_strmax(i ? 2 : 3, "choice");
  O t[] = { OPTION_STRING('s', "str", ENV_VAR("STR"), VALIDATOR(V_CHOICE_STR(c[0], c[1], c[2]))), OPTION_END() }, d[] = { OPTION_STRING('s', "str", DEFAULT(v), VALIDATOR(V_CHOICE_STR(c[0], c[1], c[2]))), OPTION_END() };
  if (way == 0) st = GO(a, t, vf_cat("--str=", v)); else if (way == 1) { vf_env("STR", v); st = go(&a, t, 1, ARGS(NULL)); } else st = go(&a, d, 1, ARGS(NULL));
  limited(st, vf_eq(v, c[0]) || vf_eq(v, c[1]) || vf_eq(v, c[2]), ARGUS_ERROR_INVALID_CHOICE, "one of the choices is accepted", "a text that is none of the choices is rejected");
  if (st == 0) CHECK(vf_eq(argus_get(&a, "str").as_string, v), "a limit does not change the value");
}
void choice_int(void) {
  static const int64_t set[] = {0, 1, -1, 4294967297LL, INT64_MIN, INT64_MAX}; int64_t c[3], z = any64("value"); argus_t a; for (int i = 0; i < 3; i++) c[i] = set[sx_choose(6, "choice")];
  O t[] = { OPTION_INT('n', "num", DEFAULT(z), VALIDATOR(V_CHOICE_INT(c[0], c[1], c[2]))), OPTION_END() };
  int st = go(&a, t, 1, ARGS(NULL)); limited(st, z == c[0] || z == c[1] || z == c[2], ARGUS_ERROR_INVALID_CHOICE, "one of the choices is accepted", "an integer that is none of the choices is rejected");
}
void choice_int_text(void) {
  static const int64_t set[] = {0, 7, -12, 42, 305}; int64_t c[3]; argus_t a; char *v = vf_strset(1 + sx_choose(3, "length"), "-0123457", "text"), *e; for (int i = 0; i < 3; i++) c[i] = set[sx_choose(5, "choice")];
  O t[] = { OPTION_INT('n', "num", VALIDATOR(V_CHOICE_INT(c[0], c[1], c[2]))), OPTION_END() }; int64_t z = strtoll(v, &e, 10); if (*e || e == v) sx_end();
  int st = GO(a, t, vf_cat("-n", v)); limited(st, z == c[0] || z == c[1] || z == c[2], ARGUS_ERROR_INVALID_CHOICE, "one of the choices is accepted", "an integer that is none of the choices is rejected");
}
void choice_float(void) {
  static const double set[] = {0, 1.5, -2.5, 10, 0.1}; int c[3]; argus_t a; char *v = vf_strset(1 + sx_choose(Q(3, 4), "length"), "-.0125", "text"), *e; for (int i = 0; i < 3; i++) c[i] = i == 2 ? 3 : (int)sx_choose(Q(i ? 1 : 5, 5), "choice");
  double z = strtod(v, &e); if (*e || e == v) sx_end(); O t[] = { OPTION_FLOAT('n', "num", VALIDATOR(V_CHOICE_FLOAT(set[c[0]], set[c[1]], set[c[2]]))), OPTION_END() };
  int st = GO(a, t, vf_cat("-n", v)); limited(st, z == set[c[0]] || z == set[c[1]] || z == set[c[2]], ARGUS_ERROR_INVALID_CHOICE, "one of the choices is accepted", "a number that is none of the choices is rejected");
}
/* any number against choices of every size, at full precision */
void choice_float_any(void) {
  double z = sx_fvar("value"), c[3]; argus_t a; bool pos = sx_choose(2, "positional"); static const double set[] = {0.5, 0.1, -1e300, 0, 16777217, 4.9e-324}; for (int i = 0; i < 3; i++) c[i] = set[sx_choose(6, "choice")];
  O t[] = { OPTION_FLOAT('n', "num", DEFAULT(z), VALIDATOR(V_CHOICE_FLOAT(c[0], c[1], c[2]))), OPTION_END() }, p[] = { POSITIONAL_FLOAT("num", FLAGS(FLAG_OPTIONAL), DEFAULT(z), VALIDATOR(V_CHOICE_FLOAT(c[0], c[1], c[2]))), OPTION_END() }; vf_vague = 1;
  int st = go(&a, pos ? p : t, 1, ARGS(NULL)); limited(st, z == c[0] || z == c[1] || z == c[2], ARGUS_ERROR_INVALID_CHOICE, "one of the choices is accepted", "a number that is none of the choices is rejected");
}
/* as many choices as one likes: the last counts like the first */
void choice_many(void) {
  int n = 1 + (int)sx_choose(Q(20, 40), "choices"), kind = (int)sx_choose(2, "kind"), st; argus_t a; int64_t z = any64("value"), *ci = vf_mem(sizeof(int64_t) * (size_t)n); const char **cs = vf_mem(sizeof(char *) * (size_t)n); char *v = vf_strset(2, "abx", "text"); bool in = false;
  for (int i = 0; i < n; i++) { ci[i] = (int64_t)i * 4294967295LL - 7; char e[3] = { (char)('a' + i / 2 % 2), (char)('a' + i % 2), 0 }; if (i + 1 == n) e[0] = 'x'; cs[i] = S(e); in |= kind ? vf_eq(v, cs[i]) : z == ci[i]; }
  validator_entry_t e = kind ? *(V_CHOICE_STR("a")) : *(V_CHOICE_INT(1)), *l[] = { &e, NULL }; e.data.choices.count = (size_t)n; if (kind) e.data.choices.as_strings = cs; else e.data.choices.as_ints = ci;
  O t[] = { OPTION_STRING('s', "str"), OPTION_INT('n', "num", DEFAULT(z)), OPTION_END() }; if (kind) t[1] = (O)OPTION_END(); t[kind ? 0 : 1].validators = l; vf_vague = 1;
  st = kind ? GO(a, t, vf_cat("-s", v)) : go(&a, t, 1, ARGS(NULL)); limited(st, in, ARGUS_ERROR_INVALID_CHOICE, "one of the choices is accepted", "a value that is none of the choices is rejected");
}
/* every limit of an option counts, and limits of options not given do not */
void limits_together(void) {
  int64_t lo = any64("lo"), hi = any64("hi"), lo2 = any64("lo2"), hi2 = any64("hi2"); argus_t a; char *d = vf_strset(2, "0123456789", "digits"); int64_t v = (d[0] - '0') * 10 + d[1] - '0'; bool give = sx_choose(2, "given");
  O sub[] = { OPTION_INT('m', "num", VALIDATOR(V_RANGE(lo, hi), V_RANGE(lo2, hi2), V_CHOICE_INT(10, 20, 99))), OPTION_END() };
  O t[] = { OPTION_INT('n', "num", VALIDATOR(V_RANGE(lo2, hi2))), SUBCOMMAND("cmd", sub), OPTION_END() };
  int st = give ? GO(a, t, S("cmd"), S("-m"), d) : GO(a, t, S("cmd")); if (!give) { CHECK(st == 0, "limits of options that have no value do not count"); return; }
  bool r1 = lo <= v && v <= hi, r2 = lo2 <= v && v <= hi2, r3 = v == 10 || v == 20 || v == 99;
  limited(st, r1 && r2 && r3, !r1 || !r2 ? ARGUS_ERROR_INVALID_RANGE : ARGUS_ERROR_INVALID_CHOICE, "a value within all its limits is accepted", "a value outside one of its limits is rejected, by the first it breaks");
}
/* the limits of every level of a chain of commands count */
void limits_deep(void) {
  int n = 1 + (int)sx_choose(Q(5, 10), "commands"), x = (int)sx_choose((uint64_t)n + 1, "level"), w = (int)sx_choose(5, "limit"); O *lv[12]; char *av[64]; int c = 0; av[c++] = "prog"; argus_t a; vf_on_exit = no_exit; int64_t lo = any64("lo"), hi = any64("hi"); char *d = vf_strset(2, "0123456789", "digits"); int64_t z = (d[0] - '0') * 10 + d[1] - '0'; size_t slo = (size_t)sx_var(64, "least"), shi = (size_t)sx_var(64, "most"); bool env = sx_choose(2, "env"); sx_assume(slo <= shi && shi <= INT64_MAX);
  validator_entry_t e = w == 0 ? *(V_RANGE(lo, hi)) : w == 1 ? *(V_LENGTH(slo, shi)) : w == 2 ? *(V_COUNT(slo, shi)) : w == 3 ? *(V_CHOICE_STR("10", "20", "99")) : *(V_CHOICE_INT(10, 20, 99)), *l[] = { &e, NULL };
  static const char *const cs[] = {"10", "20", "99"}; static const int64_t ci[] = {10, 20, 99}; if (w == 3) e.data.choices.as_strings = (const char **)cs; if (w == 4) e.data.choices.as_ints = (int64_t *)ci;
  for (int k = n; k >= 0; k--) { O t[] = { OPTION_INT('i', "ii"), OPTION_STRING('s', "ss"), OPTION_ARRAY_STRING('l', "ll"), SUBCOMMAND("go", NULL), OPTION_END() }; if (k < n) t[3].sub_options = lv[k + 1]; else t[3] = (O)OPTION_END(); if (k == x) { O *o = &t[w == 0 || w == 4 ? 0 : w == 2 ? 2 : 1]; o->validators = l; if (env) o->env_name = "LIMITED"; } lv[k] = TAB(t); }
  char *val = w == 2 ? vf_cat(d, ",x") : d; if (env) vf_env("LIMITED", val); for (int k = 0; k <= n; k++) { if (!(k == x && env)) { av[c++] = w == 0 || w == 4 ? S("-i") : w == 2 ? S("-l") : S("-s"); av[c++] = k == x ? val : S("1"); } if (k < n) av[c++] = S("go"); } av[c] = 0;
  bool ok = w == 0 ? lo <= z && z <= hi : w == 1 || w == 2 ? slo <= 2 && 2 <= shi : z == 10 || z == 20 || z == 99; int bad = w == 0 ? ARGUS_ERROR_INVALID_RANGE : w == 1 ? ARGUS_ERROR_INVALID_RANGE : w == 2 ? ARGUS_ERROR_INVALID_RANGE : ARGUS_ERROR_INVALID_CHOICE;
  limited(go(&a, lv[0], c, av), ok, bad, "a value within the limit of its level is accepted", "a value outside the limit of its level is rejected");
}
/* ---- P17: order and verdicts */
struct ev { int who; const char *text; void *opt; };
static struct ev ev[64]; static int nev, sched[64];
static int happen(int who, const char *text, void *opt) { if (nev >= 60) return 77; ev[nev].who = who; ev[nev].text = text; ev[nev].opt = opt; return sched[nev++]; }
static int v_pre(argus_t *a, void *p, validator_data_t d) { (void)a; return happen((int)d.custom, (const char *)p, 0); }
static int v_post(argus_t *a, void *p, validator_data_t d) { (void)a; return happen((int)d.custom, 0, p); }
static int h_own(argus_t *a, O *o, char *v) { (void)a; int r = happen(100 + o->sname, v, o); if (!r) o->value.as_string = v; return r; }
#define PRE(id) MAKE_VALIDATOR(v_pre, 0, _V_DATA_CUSTOM_(id), ORDER_PRE)
#define POST(id) MAKE_VALIDATOR(v_post, 0, _V_DATA_CUSTOM_(id), ORDER_POST)
struct exp { int who; const char *text; void *opt; }; static struct exp ex[64]; static int nex;
static void expect(int who, const char *t, void *o) { ex[nex].who = who; ex[nex].text = t; ex[nex++].opt = o; }
static void settle(int st) {
  int fail = -1; for (int i = 0; i < nex && fail < 0; i++) if (sched[i]) fail = i;
  CHECK(nev == (fail < 0 ? nex : fail + 1), "nothing runs after a refusal, and nothing is left out before it");
  for (int i = 0; i < nev; i++) { CHECK(ev[i].who == ex[i].who, "validators and handlers run in the documented order"); if (ex[i].text) CHECK(vf_eq(ev[i].text, ex[i].text), "validators and handlers of the raw text get the text given"); else CHECK(ev[i].opt == ex[i].opt, "validators of the value get their option"); }
  if (fail < 0) { sx_reach("accepted"); CHECK(st == 0, "what every validator and handler accepts is accepted"); } else { sx_reach("refused"); CHECK(st == sched[fail], "the first refusal is returned unchanged"); }
}
static void schedule(int n) { for (int i = 0; i < n; i++) { sched[i] = (int)sx_var(32, "verdict"); sx_assume(sched[i] != ARGUS_SHOULD_EXIT); } }
void verdicts(void) {
  nev = nex = 0; schedule(14); argus_t a; vf_on_exit = no_exit; char *v[3]; int o[3], n = 1 + (int)sx_choose(Q(2, 3), "given");
  O s[] = { OPTION_STRING('a', "aa", HANDLER(h_own), VALIDATOR(PRE(1), POST(2), PRE(3))), OPTION_STRING('b', "bb", HANDLER(h_own), VALIDATOR(POST(4), POST(5))), POSITIONAL_STRING("pp", FLAGS(FLAG_OPTIONAL), VALIDATOR(PRE(6), POST(7)), HANDLER(h_own)), OPTION_END() };
  bool env = sx_choose(2, "env"); if (env) s[1].env_name = "BB"; char *ev_ = vf_strmax(2, "envtext"); if (env) vf_env("BB", ev_);
  char *av[16]; int c = 0; av[c++] = "prog"; bool set[3] = {0}, pos = false;
  for (int i = 0; i < n; i++) { o[i] = (int)sx_choose(3, "which"); if (o[i] == 2) { if (pos) sx_assume(false); pos = true; } v[i] = vf_strmax(2, "text"); if (o[i] == 2) sx_assume(v[i][0] != '-'); if (o[i] < 2) av[c++] = o[i] ? S("-b") : S("--aa"); av[c++] = v[i]; set[o[i]] = true; }
  av[c] = 0; int st = go(&a, s, c, av);
  for (int i = 0; i < n; i++) { if (o[i] == 0) { expect(1, v[i], 0); expect(3, v[i], 0); expect(100 + 'a', v[i], 0); } else if (o[i] == 1) expect(100 + 'b', v[i], 0); else { expect(6, v[i], 0); expect(100, v[i], 0); } }
  if (env && !set[1]) { expect(100 + 'b', ev_, 0); set[1] = true; }
  if (set[0]) expect(2, 0, &s[0]); if (set[1]) { expect(4, 0, &s[1]); expect(5, 0, &s[1]); } if (set[2]) expect(7, 0, &s[2]);
  settle(st); if (st == 0) for (int i = 0; i < 3; i++) CHECK(argus_is_set(&a, i == 0 ? "aa" : i == 1 ? "bb" : "pp") == set[i], "an option is set exactly when a text for it was accepted");
}
/* defaults are validated as values, not as text; table order across levels */
void verdict_levels(void) {
  nev = nex = 0; schedule(8); argus_t a; vf_on_exit = no_exit; bool cmd = sx_choose(2, "cmd"), give = sx_choose(2, "given"); char *v = vf_strmax(2, "text");
  O sub[] = { OPTION_STRING('c', "cc", HANDLER(h_own), DEFAULT("d"), VALIDATOR(POST(10), PRE(11))), OPTION_STRING('e', "ee", HANDLER(h_own), VALIDATOR(POST(14))), OPTION_END() };
  O t[] = { OPTION_STRING('a', "aa", HANDLER(h_own), DEFAULT("x"), VALIDATOR(PRE(12), POST(13))), SUBCOMMAND("cmd", sub), OPTION_STRING('z', "zz", HANDLER(h_own), VALIDATOR(POST(15))), OPTION_END() };
  char *av[8]; int c = 0; av[c++] = "prog"; if (give) { av[c++] = S("-a"); av[c++] = v; } if (cmd) { av[c++] = S("cmd"); } if (cmd && give) { av[c++] = S("-e"); av[c++] = v; } av[c] = 0; int st = go(&a, t, c, av);
  if (give) { expect(12, v, 0); expect(100 + 'a', v, 0); if (cmd) expect(100 + 'e', v, 0); } expect(13, 0, &t[0]); if (cmd) { expect(10, 0, &sub[0]); if (give) expect(14, 0, &sub[1]); }
  settle(st);
}
/* many validators of one option, of both kinds in any order */
void verdict_many(void) {
  nev = nex = 0; schedule(24); argus_t a; vf_on_exit = no_exit; int n = Q(7, 9), what = (int)sx_choose(3, "given"); unsigned pre = (unsigned)sx_choose(1u << n, "before"); validator_entry_t e[10], *l[11]; char *v = vf_strn(1, "text"); for (int i = 0; i < n; i++) { if (pre >> i & 1) e[i] = *(PRE(i + 1)); else e[i] = *(POST(i + 1)); l[i] = &e[i]; } l[n] = NULL;
  O t[] = { OPTION_STRING('a', "aa", HANDLER(h_own)), POSITIONAL_STRING("pp", HANDLER(h_own), FLAGS(FLAG_OPTIONAL)), OPTION_END() }; if (what == 1) t[0].env_name = "AA"; t[what == 2].validators = l; for (int i = 0; i < n; i++) if (pre >> i & 1) expect(i + 1, v, 0); expect(what == 2 ? 100 : 100 + 'a', v, 0); for (int i = 0; i < n; i++) if (!(pre >> i & 1)) expect(i + 1, 0, &t[what == 2]);
  if (what == 1) vf_env("AA", v); settle(what == 0 ? GO(a, t, S("-a"), v) : what == 1 ? go(&a, t, 1, ARGS(NULL)) : GO(a, t, S("--"), v));
}
/* every kind of value, given once or more: each text is judged before its handler reads it, the whole once at the end */
void verdict_kinds(void) {
  nev = nex = 0; schedule(12); argus_t a; vf_on_exit = no_exit; int k = (int)sx_choose(12, "kind"), n = 1 + (int)sx_choose(Q(3, 4), "given"), way = k >= 10 ? 2 : (int)sx_choose(2, "way"); bool def = k < 4 && sx_choose(2, "default"), more = sx_choose(2, "more"); char *av[12]; int c = 0; av[c++] = "prog";
  O t[] = { OPTION_STRING('a', "aa"), OPTION_END(), OPTION_END() };
  switch (k) { case 0: t[0] = (O)OPTION_STRING('a', "aa"); break; case 1: t[0] = (O)OPTION_INT('a', "aa"); break; case 2: t[0] = (O)OPTION_FLOAT('a', "aa"); break; case 3: t[0] = (O)OPTION_BOOL('a', "aa"); break; case 4: t[0] = (O)OPTION_ARRAY_STRING('a', "aa"); break; case 5: t[0] = (O)OPTION_ARRAY_INT('a', "aa"); break; case 6: t[0] = (O)OPTION_ARRAY_FLOAT('a', "aa"); break;
    case 7: t[0] = (O)OPTION_MAP_STRING('a', "aa"); break; case 8: t[0] = (O)OPTION_MAP_INT('a', "aa"); break; case 9: t[0] = (O)OPTION_MAP_BOOL('a', "aa"); break; case 10: t[0] = (O)POSITIONAL_MANY_STRING("aa"); break; default: t[0] = (O)POSITIONAL_MANY_INT("aa"); }
  validator_entry_t e[4], *l[5]; e[0] = *(PRE(1)); e[1] = *(POST(2)); e[2] = *(PRE(3)); e[3] = *(POST(4)); for (int i = 0; i < 4; i++) l[i] = &e[i]; l[4] = NULL; t[0].validators = l; if (def) { t[0].have_default = t[0].is_set = true; if (k == 0) t[0].value.as_string = "1"; t[0].default_value = t[0].value; }
  if (more) { t[0].flags |= FLAG_HIDDEN; t[0].hint = "HINT"; t[0].env_name = "AA"; t[0].help = "h"; }
  char *v[4]; for (int i = 0; i < n; i++) { char *d = vf_strset(1, "01", "digit"); v[i] = k >= 7 && k <= 9 ? vf_cat("k=", d) : d; if (way == 0) av[c++] = S("-a"); av[c++] = way == 1 ? vf_cat("--aa=", v[i]) : v[i]; expect(1, v[i], 0); expect(3, v[i], 0); } av[c] = 0;
  expect(2, 0, &t[0]); expect(4, 0, &t[0]); int st = go(&a, t, c, av); settle(st); if (st == 0) CHECK(t[0].is_set, "an option is set exactly when a text for it was accepted"); argus_free(&a);
}
/* longer chains of commands: raw texts as they are read, values level by level */
void verdict_deep(void) {
  nev = nex = 0; schedule(30); argus_t a; vf_on_exit = no_exit; int n = (int)sx_choose(Q(5, 6), "levels"); unsigned give = (unsigned)sx_choose(1u << (n + 1), "given"); bool env = sx_choose(2, "env"), def = sx_choose(2, "default"); O *lv[8]; char *v[8], *av[32], *ev_ = S("e"); int c = 0; av[c++] = "prog"; if (env) vf_env("DEEP", ev_);
  for (int k = n; k >= 0; k--) { O t[] = { GROUP_START("g"), OPTION_STRING((char)('a' + k), "oo", HANDLER(h_own), VALIDATOR(POST(10 * k + 1), PRE(10 * k + 2), POST(10 * k + 3))), GROUP_END(), SUBCOMMAND("go", NULL), OPTION_STRING('z', "ee", HANDLER(h_own), VALIDATOR(POST(10 * k + 4))), OPTION_END() }; if (k < n) t[3].sub_options = lv[k + 1]; else t[3] = (O)OPTION_FLAG('!', "none"); if (env && k == 1) t[1].env_name = "DEEP"; if (def && k == 2) { t[4].have_default = t[4].is_set = true; t[4].default_value.as_string = t[4].value.as_string = "dd"; } validator_entry_t **l = vf_mem(4 * sizeof *l), **m = vf_mem(2 * sizeof *m), *e = vf_mem(4 * sizeof *e); e[0] = *(POST(10 * k + 1)); e[1] = *(PRE(10 * k + 2)); e[2] = *(POST(10 * k + 3)); e[3] = *(POST(10 * k + 4)); for (int i = 0; i < 3; i++) l[i] = &e[i]; l[3] = m[1] = NULL; m[0] = &e[3]; t[1].validators = l; t[4].validators = m; lv[k] = TAB(t); }
  for (int k = 0; k <= n; k++) { char q[3] = { '-', (char)('a' + k), 0 }; v[k] = vf_strn(1, "text"); if (give >> k & 1) { av[c++] = S(q); av[c++] = v[k]; expect(10 * k + 2, v[k], 0); expect(100 + 'a' + k, v[k], 0); } if (k < n) av[c++] = S("go"); } av[c] = 0;
  if (env && n >= 1 && !(give >> 1 & 1)) { expect(12, ev_, 0); expect(100 + 'b', ev_, 0); give |= 2; }
  for (int k = 0; k <= n; k++) { if (give >> k & 1) { expect(10 * k + 1, 0, &lv[k][1]); expect(10 * k + 3, 0, &lv[k][1]); } if (def && k == 2) expect(24, 0, &lv[k][4]); }
  int st = go(&a, lv[0], c, av); settle(st); if (st == 0) for (int k = 0; k <= n; k++) CHECK(lv[k][1].is_set == (give >> k & 1), "an option is set exactly when a text for it was accepted");
}
extern int vf_regex_outcome, vf_regex_calls; extern const char *vf_regex_pattern, *vf_regex_subject;
void pattern(void) {
  argus_t a; char *v = vf_strmax(Q(4, 6), "text"), *w = vf_strmax(2, "pattern"); int way = (int)sx_choose(4, "way"), st; bool hint = sx_choose(2, "hint");
  regex_data_t r = { .pattern = w, .hint = hint ? "like this" : NULL };
  O t[] = { OPTION_STRING('s', "str", ENV_VAR("STR"), VALIDATOR(V_REGEX(r))), OPTION_INT('n', "num", VALIDATOR(V_REGEX(r))), OPTION_END() }, p[] = { POSITIONAL_STRING("str", VALIDATOR(V_REGEX(r))), OPTION_END() };
  if (way == 3) v = vf_strset(1, "0123456789", "digit");
  if (way == 0) st = GO(a, t, vf_cat("--str=", v)); else if (way == 1) { vf_env("STR", v); st = go(&a, t, 1, ARGS(NULL)); } else if (way == 2) st = GO(a, p, S("--"), v); else st = GO(a, t, S("-n"), v);
  CHECK(vf_regex_calls == 1, "the pattern is applied once to every text"); CHECK(vf_eq(vf_regex_pattern, w), "the pattern applied is the one declared");
  if (vf_regex_outcome != 4) CHECK(vf_eq(vf_regex_subject, v), "the pattern is applied to the whole text given");
  if (vf_regex_outcome == 1) { sx_reach("match"); CHECK(st == 0, "a text the pattern matches is accepted"); if (way < 3) CHECK(vf_eq(argus_get(&a, "str").as_string, v), "a pattern does not change the text"); }
  else if (vf_regex_outcome == 2) { sx_reach("no match"); CHECK(st == ARGUS_ERROR_INVALID_VALUE, "a text the pattern does not match is rejected"); }
  else { sx_reach("engine"); CHECK(st == ARGUS_ERROR_INVALID_FORMAT, "a failing pattern rejects the text"); }
}
/* two patterned texts: each is judged on its own */
void pattern_twice(void) {
  argus_t a; char *v = vf_strmax(2, "first"), *w = vf_strmax(2, "second"); bool arr = sx_choose(2, "list"); regex_data_t r = { .pattern = "p", .hint = NULL };
  O t[] = { arr ? OPTION_ARRAY_STRING('s', "str", VALIDATOR(V_REGEX(r))) : OPTION_STRING('s', "str", VALIDATOR(V_REGEX(r))), OPTION_END() };
  int st = GO(a, t, S("-s"), v, S("-s"), w);
  if (vf_regex_calls == 1) { CHECK(vf_regex_outcome != 1 && st != 0, "after a refused text nothing else is judged"); if (vf_regex_outcome < 4) CHECK(vf_eq(vf_regex_subject, v), "texts are judged in the order given"); }
  else { CHECK(vf_regex_calls == 2, "every text is judged once"); CHECK((st == 0) == (vf_regex_outcome == 1), "the last text decides when the first was accepted"); if (vf_regex_outcome < 4) CHECK(vf_eq(vf_regex_subject, w), "texts are judged in the order given"); }
}
/* ---- P18: relations */
static char *one(char c) { char *s = vf_mem(2); s[0] = c; s[1] = 0; return s; }
static char *relname(int n) { char *s = vf_mem(2); sx_bytes(s, 1, "name"); sx_assume(s[0] >= 'a' && s[0] < 'a' + n); s[1] = 0; return s; }
static bool among(int st, const bool *v) { /* v: required, conflict, group */ return (v[0] && st == ARGUS_ERROR_MISSING_REQUIRED) | (v[1] && st == ARGUS_ERROR_CONFLICTING_OPTIONS) | (v[2] && st == ARGUS_ERROR_EXCLUSIVE_GROUP); }
static void verdict(int st, const bool *v) {
  if (!(v[0] | v[1] | v[2])) { sx_reach("allowed"); CHECK(st == 0, "options that break no rule are accepted"); }
  else { if (v[0]) sx_reach("requirement"); if (v[1]) sx_reach("conflict"); if (v[2]) sx_reach("group"); CHECK(among(st, v), "options that break a rule are rejected with the status of a rule they break"); }
}
void relations(void) {
  enum { N = 4 }; O *t = vf_mem((N + 1) * sizeof(O)); static const char *const nm[] = {"a", "b", "c", "d"}; const char **rq[2], **cf[2]; int nr[2], nc[2]; bool set[N], vio[3] = {0};
  for (int i = 0; i < N; i++) t[i] = (O)OPTION_FLAG((char)('a' + i), nm[i]); t[N] = (O)OPTION_END();
  for (int i = 0; i < 2; i++) { nr[i] = (int)sx_choose(i ? 2 : 3, "requires"); nc[i] = (int)sx_choose(i ? 2 : Q(2, 3), "conflicts"); rq[i] = vf_mem(3 * sizeof(char *)); cf[i] = vf_mem(3 * sizeof(char *)); for (int k = 0; k < nr[i]; k++) rq[i][k] = relname(N); for (int k = 0; k < nc[i]; k++) cf[i][k] = relname(N); rq[i][nr[i]] = cf[i][nc[i]] = NULL; int at = i ? 2 : 0; if (nr[i]) t[at].require = rq[i]; if (nc[i]) t[at].conflict = cf[i]; }
  for (int i = 0; i < 2; i++) for (int k = 0; k < nc[i]; k++) sx_assume(cf[i][k][0] != (i ? 'c' : 'a')); /* no option conflicts with itself */
  char *bits = vf_strset(N, "01", "given"); char *av[8]; int c = 0; av[c++] = "prog"; for (int i = 0; i < N; i++) { set[i] = bits[i] == '1'; if (set[i]) { char f[3] = { '-', (char)('a' + i), 0 }; av[c++] = S(f); } } av[c] = 0;
  argus_t a; int st = go(&a, t, c, av);
  for (int i = 0; i < 2; i++) if (set[i ? 2 : 0]) { for (int k = 0; k < nr[i]; k++) { bool in = false; for (int j = 0; j < N; j++) in |= (rq[i][k][0] == 'a' + j) & set[j]; vio[0] |= !in; } for (int k = 0; k < nc[i]; k++) { bool in = false; for (int j = 0; j < N; j++) in |= (cf[i][k][0] == 'a' + j) & set[j]; vio[1] |= in; } }
  verdict(st, vio);
}
/* long lists of required and excluded options: the last name counts like the first */
/* what a rule names may be of any kind, and at any place of the list */
void relations_kinds(void) {
  enum { M = 3, K = 9 }; static const char *const nm[M] = {"aa", "bb", "cc"}; O *t = vf_mem((M + 3) * sizeof(O)); bool excl = sx_choose(2, "exclude"), set[M], vio[3] = {0}; int first = (int)sx_choose(Q(1, M), "first"), where = (int)sx_choose(Q(2, 3), "place"); const char *l[M + 1]; char *av[16]; int c = 0, m = 0; av[c++] = "prog"; bool env = sx_choose(2, "env"), pos = false; vf_on_exit = no_exit;
  O owner = OPTION_FLAG('x', "xx"); for (int i = 0; i < M; i++) l[i] = nm[(i + first) % M]; l[M] = NULL; if (excl) owner.conflict = l; else owner.require = l;
  for (int i = 0; i < M; i++) {
    int k = (int)sx_choose(K, "kind"); char c1 = (char)('a' + i); if (where == i) t[m++] = owner; if (k == 7) { if (pos) sx_end(); pos = true; }
    switch (k) { case 0: t[m] = (O)OPTION_FLAG(c1, nm[i]); break; case 1: t[m] = (O)OPTION_STRING(c1, nm[i]); break; case 2: t[m] = (O)OPTION_INT(c1, nm[i], FLAGS(FLAG_REQUIRED)); break; case 3: t[m] = (O)OPTION_ARRAY_INT(c1, nm[i]); break; case 4: t[m] = (O)OPTION_MAP_INT('\0', nm[i]); break; case 5: t[m] = (O)OPTION_BOOL(c1, nm[i], FLAGS(FLAG_HIDDEN | FLAG_ADVANCED)); break; case 6: t[m] = (O)OPTION_FLOAT(c1, nm[i], FLAGS(FLAG_DEPRECATED | FLAG_EXPERIMENTAL)); break; case 7: t[m] = (O)POSITIONAL_INT(nm[i], FLAGS(FLAG_OPTIONAL)); break; default: t[m] = (O)OPTION_INT(c1, nm[i], ENV_VAR("VAR"), FLAGS(FLAG_ENV_OVERRIDE)); }
    set[i] = sx_choose(2, "given"); if (set[i]) { if (k == 7) av[c++] = S("1"); else if (k == 0) av[c++] = vf_cat("--", nm[i]); else av[c++] = vf_cat("--", vf_cat(nm[i], k == 4 ? "=k=1" : "=1")); } if (k == 8 && env) set[i] = true; if (k == 2 && !set[i]) vio[0] = true; m++;
  }
  if (env) vf_env("VAR", S("1")); t[m] = (O)OPTION_END(); bool x = sx_choose(2, "given"); if (x) av[c++] = S("-x"); av[c] = 0; for (int i = 0; x && i < M; i++) { if (excl) vio[1] |= set[i]; else vio[0] |= !set[i]; } argus_t a; int st = go(&a, t, c, av); verdict(st, vio);
}
void relations_many(void) {
  enum { N = 12 }; O t[N + 2]; static const char *const nm[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}; int n = 1 + (int)sx_choose(N, "names"), from = (int)sx_choose(2, "side"); bool excl = sx_choose(2, "exclude"); const char **l = vf_mem((N + 1) * sizeof(char *)); bool set[N], vio[3] = {0}; char *bits = vf_strset(N, "01", "given"); char *av[N + 4]; int c = 0;
  for (int i = 0; i < n; i++) l[i] = nm[from ? N - 1 - i : i]; l[n] = NULL; for (int i = 0; i < N; i++) t[i] = (O)OPTION_FLAG((char)('a' + i), nm[i]); t[N] = (O)OPTION_FLAG('x', "x"); t[N + 1] = (O)OPTION_END(); if (excl) t[N].conflict = l; else t[N].require = l;
  int odd = (int)sx_choose(N, "odd one"); av[c++] = "prog"; av[c++] = S("-x"); for (int i = 0; i < N; i++) { sx_assume(bits[i] == (excl != (i == odd) ? '0' : '1')); set[i] = excl ? i == odd : i != odd; if (set[i]) { char f[3] = { '-', (char)('a' + i), 0 }; av[c++] = S(f); } } av[c] = 0;
  for (int i = 0; i < n; i++) { bool has = false; for (int j = 0; j < N; j++) has |= vf_eq(l[i], nm[j]) && set[j]; if (excl) vio[1] |= has; else vio[0] |= !has; }
  argus_t a; int st = go(&a, TAB(t), c, av); verdict(st, vio);
}
void groups(void) {
  enum { N = 5 }; O *t = vf_mem((2 * N + 1) * sizeof(O)); int k = 0, grp[N], g = -1; bool excl[N + 1], set[N], vio[3] = {0}; static const char *const nm[] = {"a", "b", "c", "d", "e"}, *const gn[] = {"g0", "g1", "g2", "g3", "g4"}; int ng = 0;
  for (int i = 0; i < N; i++) { int b = (int)sx_choose(i == 0 ? 2 : 3, "boundary"); /* none, a group, the end of the group */
    if (b == 1) { bool e = sx_var(8, "exclusive") & 1; t[k] = (O)GROUP_START(gn[ng]); t[k++].flags = e ? FLAG_EXCLUSIVE : FLAG_NONE; excl[ng] = e; g = ng++; } else if (b == 2) { if (g < 0) sx_assume(false); t[k++] = (O)GROUP_END(); g = -1; }
    grp[i] = g; t[k++] = (O)OPTION_FLAG((char)('a' + i), nm[i]); }
  t[k] = (O)OPTION_END();
  char *bits = vf_strset(N, "01", "given"); char *av[8]; int c = 0; av[c++] = "prog"; for (int i = 0; i < N; i++) { set[i] = bits[i] == '1'; if (set[i]) { char f[3] = { '-', (char)('a' + i), 0 }; av[c++] = S(f); } } av[c] = 0;
  argus_t a; int st = go(&a, t, c, av);
  for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) if (set[i] && set[j] && grp[i] >= 0 && grp[i] == grp[j]) vio[2] |= excl[grp[i]];
  verdict(st, vio);
}
/* required options and positionals, satisfied from the command line, the environment or a default, at two levels */
void required(void) {
  char *fl = vf_strset(5, "01", "required"), *bits = vf_strset(5, "01", "given"), *env = vf_strset(2, "01", "environment"); bool cmd = sx_choose(2, "command"), v[3] = {0}; argus_t a;
#define RQ(i) (argus_optflags_t)(fl[i] == '1' ? FLAG_REQUIRED : 0)
  O s[] = { OPTION_STRING('s', "ss", ENV_VAR("SS"), FLAGS(RQ(0))), POSITIONAL_STRING("pp", FLAGS(RQ(1))), OPTION_END() };
  O t[] = { OPTION_STRING('r', "rr", ENV_VAR("RR"), FLAGS(RQ(2))), SUBCOMMAND("cmd", s), OPTION_INT('n', "nn", DEFAULT(3), FLAGS(RQ(3))), OPTION_ARRAY_STRING('l', "ll", FLAGS(RQ(4))), OPTION_END() };
  char *av[16]; int c = 0; av[c++] = "prog"; if (bits[2] == '1') { av[c++] = S("-r"); av[c++] = S("x"); } if (bits[3] == '1') { av[c++] = S("-n"); av[c++] = S("1"); } if (bits[4] == '1') { av[c++] = S("-l"); av[c++] = S("x,y"); }
  if (cmd) { av[c++] = S("cmd"); if (bits[0] == '1') { av[c++] = S("-s"); av[c++] = S("x"); } if (bits[1] == '1') av[c++] = S("op"); } av[c] = 0;
  if (env[0] == '1') vf_env("SS", S("e")); if (env[1] == '1') vf_env("RR", S("e")); int st = go(&a, t, c, av);
  v[0] = (fl[2] == '1' && bits[2] == '0' && env[1] == '0') || (fl[4] == '1' && bits[4] == '0') || (cmd && ((fl[0] == '1' && bits[0] == '0' && env[0] == '0') || (fl[1] == '1' && bits[1] == '0')));
  verdict(st, v);
}
/* every level of a longer chain of commands keeps its rules */
void rules_deep(void) {
  int n = 1 + (int)sx_choose(Q(4, 10), "commands"), x = (int)sx_choose((uint64_t)n + 1, "level"), y = (int)sx_choose((uint64_t)n + 1, "other level"); bool v[3] = {0}; O *lv[12]; char *av[64]; int c = 0, state[12], kind[12]; av[c++] = "prog"; argus_t a; vf_on_exit = no_exit; const char **rq = vf_mem(2 * sizeof *rq), **cf = vf_mem(2 * sizeof *cf); rq[0] = "d"; cf[0] = "e"; rq[1] = cf[1] = NULL; if (y < x) sx_end();
  for (int k = n; k >= 0; k--) {
    state[k] = k == x || k == y ? (int)sx_choose(9, "state") : 0; kind[k] = state[k] == 1 || state[k] == 2 ? (int)sx_choose(4, "kind") : 0;
    O t[] = { OPTION_STRING('r', "r"), GROUP_START("g"), OPTION_FLAG('a', "a"), OPTION_FLAG('b', "b"), GROUP_END(), OPTION_FLAG('c', "c"), OPTION_FLAG('d', "d"), SUBCOMMAND("go", NULL), OPTION_FLAG('e', "e"), OPTION_END() }; t[5].require = rq; t[5].conflict = cf; if (k < n) t[7].sub_options = lv[k + 1]; else t[7] = (O)OPTION_FLAG('f', "f");
    if (state[k] == 3) t[1].flags = FLAG_EXCLUSIVE; if (kind[k] == 1) t[0] = (O)OPTION_ARRAY_INT('r', "r"); if (kind[k] == 2) t[0] = (O)OPTION_MAP_STRING('r', "r"); if (kind[k] == 3) t[0] = k == n ? (O)POSITIONAL_MANY_STRING("r") : (O)OPTION_FLOAT('r', "r"); if (state[k] == 1 || state[k] == 2) t[0].flags |= FLAG_REQUIRED; lv[k] = TAB(t);
  }
  for (int k = 0; k <= n; k++) {
    switch (state[k]) { case 1: v[0] = true; break; case 2: if (!(kind[k] == 3 && k == n)) av[c++] = S("-r"); av[c++] = kind[k] == 2 ? S("k=1") : S("1"); break; case 3: v[2] = true; av[c++] = S("-ab"); break; case 4: av[c++] = S("-ba"); break; case 5: v[0] = true; av[c++] = S("-c"); break; case 6: av[c++] = S("-cd"); break; case 7: v[1] = true; av[c++] = S("-ced"); break; case 8: av[c++] = S("-de"); break; } if (k < n) av[c++] = S("go"); }
  av[c] = 0; verdict(go(&a, lv[0], c, av), v);
}
/* all rules at once, inside a command; names are looked up in the command's own table */
void rules(void) {
  char *bits = vf_strset(5, "01", "given"), *fl = vf_strset(5, "01", "required"); const char *q[2] = { relname(4), NULL }, *x[2] = { relname(4), NULL }; bool e = sx_choose(2, "exclusive"), root = sx_choose(2, "root"), cmd = sx_choose(2, "cmd"), v[3] = {0}, set[4]; argus_t a; sx_assume(x[0][0] != 'c');
  O s[] = { OPTION_FLAG('a', "a", FLAGS(RQ(0))), GROUP_START("g"), OPTION_FLAG('b', "b", FLAGS(RQ(1))), OPTION_FLAG('c', "c", FLAGS(RQ(2))), GROUP_END(), POSITIONAL_STRING("d", FLAGS(RQ(3))), OPTION_END() }; s[1].flags = e ? FLAG_EXCLUSIVE : FLAG_NONE; s[3].require = q; s[3].conflict = x;
  O t[] = { OPTION_FLAG('a', "a"), OPTION_FLAG('b', "b", FLAGS(RQ(4))), SUBCOMMAND("cmd", s), OPTION_FLAG('c', "c"), OPTION_FLAG('d', "d"), OPTION_END() };
  char *av[16]; int c = 0; av[c++] = "prog"; if (root) { av[c++] = S("-acd"); if (bits[4] == '1') av[c++] = S("-b"); } if (cmd) { av[c++] = S("cmd"); for (int i = 0; i < 4; i++) { set[i] = bits[i] == '1'; char f[3] = { '-', (char)('a' + i), 0 }; if (set[i]) av[c++] = i == 3 ? S("op") : S(f); } } av[c] = 0; int st = go(&a, t, c, av);
  v[0] = fl[4] == '1' && !(root && bits[4] == '1');
  if (cmd) { for (int i = 0; i < 4; i++) v[0] |= fl[i] == '1' && !set[i]; v[2] = e && set[1] && set[2]; if (set[2]) { bool in = false, cx = false; for (int j = 0; j < 4; j++) { in |= (q[0][0] == 'a' + j) & set[j]; cx |= (x[0][0] == 'a' + j) & set[j]; } v[0] |= !in; v[1] = cx; } }
  (void)one; verdict(st, v);
}
