/* P34: what a rejection says about the rule that was broken is so. */
#include "common.h"
#include "argus/regex.h"
#include <string.h>
extern int vf_regex_real;
#define VALUE "a message names the value at fault"
#define LIMIT "a message names the limits in force"
#define BOTH "a message about options names each option at fault"
#define NONE "a message names no option that is not at fault"
/* w stands in what was reported, not as a part of a longer word or number (a sign before a number counts as a separator) */
static bool said(const char *w) {
  size_t n = vf_len(w), m = vf_outlen[1]; bool r = false;
#define WORD(c) (((c) >= '0' && (c) <= '9') | ((c) >= 'a' && (c) <= 'z') | ((c) >= 'A' && (c) <= 'Z') | ((c) == '_'))
  for (size_t i = 0; i + n <= m; i++) { bool e = true; for (size_t k = 0; k < n; k++) e &= vf_out[1][i + k] == w[k]; if (i) { char c = vf_out[1][i - 1]; e &= !WORD(c); } if (i + n < m) { char c = vf_out[1][i + n]; e &= !WORD(c); } r |= e; }
  return r;
}
static char *num(int64_t v) { char b[24]; int n = 24; bool neg = v < 0; uint64_t u = neg ? 0 - (uint64_t)v : (uint64_t)v; b[--n] = 0; do b[--n] = (char)('0' + u % 10); while (u /= 10); if (neg) b[--n] = '-'; return S(b + n); }
static argus_t a_;
/* limits and choices that outlive the block they are written in */
static const char *cs_[4]; static int64_t ci_[4]; static double cf_[4]; static validator_entry_t e_, *ev_[2];
#define KEEP(e) (e_ = *(e), ev_[0] = &e_, ev_[1] = NULL)
static void reject(O *o, int c, char **v, int want) { vf_capture = 1; vf_on_exit = no_exit; int st = go(&a_, o, c, v); CHECK(st == want, "a rejected command line has the status of its cause"); CHECK(printed(1, "prog: "), "a report starts with the program's name"); }
static const int64_t far[] = { INT64_MIN, -4294967297LL, -20, -1, 0, 1, 5, 100, 4294967296LL, INT64_MAX };
void limits(void) {
  int kind = (int)sx_choose(5, "kind"), i = (int)sx_choose(10, "low"), j = i + (int)sx_choose(10 - (uint64_t)i, "high"); int64_t lo = far[i], hi = far[j], x = 0; char *v = "", *say = "";
  O t[] = { OPTION_FLAG('q', "quiet"), OPTION_INT('i', "int"), OPTION_END() };
  if (kind > 2 && lo < 0) sx_end();
  switch (kind) {
    case 0: case 1: { bool up = sx_choose(2, "above"); int64_t d = 1 + (int64_t)sx_choose(3, "distance"); if (up ? hi > INT64_MAX - d : lo < INT64_MIN + d) sx_end(); x = up ? hi + d : lo - d; say = v = num(x); KEEP(V_RANGE(lo, hi)); if (kind == 1) { if (x > 999999 || x < -999999) sx_end(); v = vf_cat(v, ".0"); t[1] = (O)OPTION_FLOAT('i', "int"); } break; }
    case 2: { static char *const tx[] = { "-1000.25", "-20.5", "-1.25", "-0.5", "0.25", "1.5", "5.125", "100.5", "2048.75" }; static const double dv[] = { -1000.25, -20.5, -1.25, -0.5, 0.25, 1.5, 5.125, 100.5, 2048.75 }; int k = (int)sx_choose(9, "number"); if (dv[k] >= (double)lo && dv[k] <= (double)hi) sx_end(); say = v = S(tx[k]); KEEP(V_RANGE(lo, hi)); t[1] = (O)OPTION_FLOAT('i', "int"); break; }
    case 3: { size_t n = (size_t)sx_choose(8, "length"); if ((int64_t)n >= lo && (int64_t)n <= hi) sx_end(); v = vf_strset(n, "xy", "text"); say = num((int64_t)n); KEEP(V_LENGTH(lo, hi)); t[1] = (O)OPTION_STRING('i', "int"); break; }
    default: { int n = 1 + (int)sx_choose(7, "elements"); if (n >= lo && n <= hi) sx_end(); v = S("1"); for (int k = 1; k < n; k++) v = vf_cat(v, ",2"); say = num(n); bool s = sx_choose(2, "type"); KEEP(V_COUNT(lo, hi)); if (s) t[1] = (O)OPTION_ARRAY_STRING('i', "int"); else t[1] = (O)OPTION_ARRAY_INT('i', "int"); break; }
  }
  t[1].validators = ev_;
  sx_reach(kind < 3 ? "range" : kind == 3 ? "length" : "count");
  char *av[] = { "prog", vf_cat("--int=", v), 0 }; reject(TAB(t), 2, av, ARGUS_ERROR_INVALID_RANGE);
  if (kind == 2) CHECK(printed(1, say), VALUE); else CHECK(said(say), VALUE); CHECK(said(num(lo)) && said(num(hi)), LIMIT);
}
void choices(void) {
  int kind = (int)sx_choose(3, "kind"), n = 1 + (int)sx_choose(4, "choices"); O t[] = { OPTION_FLAG('q', "quiet"), OPTION_INT('i', "int"), OPTION_END() }; char *c[4], *v = S("zz");
  if (kind == 0) {
    for (int k = 0; k < 4; k++) c[k] = vf_strset(1 + (size_t)sx_choose(k < n ? 3 : 1, "length"), "kv", "choice"); v = vf_strset(1 + (size_t)sx_choose(2, "length"), "kvz", "text"); for (int k = 0; k < n; k++) if (vf_eq(v, c[k])) sx_end();
    KEEP(V_CHOICE_STR("")); for (int k = 0; k < 4; k++) cs_[k] = c[k]; e_.data.choices.as_strings = cs_; t[1] = (O)OPTION_STRING('i', "int");
  } else if (kind == 1) {
    int64_t x[4]; for (int k = 0; k < 4; k++) { x[k] = k < 2 ? far[sx_choose(k < n ? 10 : 1, "choice")] : INT64_MIN; c[k] = num(x[k]); } int64_t y = far[sx_choose(10, "value")]; if (sx_choose(2, "beside")) y += y > 0 ? -3 : 3; for (int k = 0; k < n; k++) if (x[k] == y) sx_end(); v = num(y);
    KEEP(V_CHOICE_INT(0)); for (int k = 0; k < 4; k++) ci_[k] = x[k]; e_.data.choices.as_ints = ci_;
  } else {
    static char *const tx[] = { "-1000.25", "-0.5", "0.25", "1.5", "100.5" }; static const double dv[] = { -1000.25, -0.5, 0.25, 1.5, 100.5 }; double x[4]; for (int k = 0; k < 4; k++) { int i = k < n ? (int)sx_choose(k < 2 ? 5 : 1, "choice") : 0; x[k] = dv[i]; c[k] = S(tx[i]); } int y = (int)sx_choose(5, "value"); for (int k = 0; k < n; k++) if (x[k] == dv[y]) sx_end(); v = S(tx[y]);
    KEEP(V_CHOICE_FLOAT(0.0)); for (int k = 0; k < 4; k++) cf_[k] = x[k]; e_.data.choices.as_floats = cf_; t[1] = (O)OPTION_FLOAT('i', "int");
  }
  e_.data.choices.count = (size_t)n; t[1].validators = ev_; sx_reach(kind == 0 ? "texts" : kind == 1 ? "integers" : "numbers");
  char *av[] = { "prog", S("-q"), vf_cat("--int=", v), 0 }; reject(TAB(t), 3, av, ARGUS_ERROR_INVALID_CHOICE);
  if (kind == 2) CHECK(printed(1, v), VALUE); else CHECK(said(v), VALUE); for (int k = 0; k < n; k++) { if (kind == 2) CHECK(printed(1, c[k]), "a message lists every choice"); else CHECK(said(c[k]), "a message lists every choice"); }
}
/* names that stand in no message by themselves */
static char *const nm[] = { "alfa", "bravo", "Z", "delta", "echo" };
static const char *const arg_[] = { "--alfa", "--bravo", "-Z", "--delta=1", "--echo=k" };
#define FIVE(A, B, C, D, E) OPTION_FLAG('a', "alfa", A), OPTION_FLAG('b', "bravo", B), OPTION_FLAG('Z', NULL, C), OPTION_INT('d', "delta", D), OPTION_STRING('e', "echo", E)
static int given(char **av, int mask) { int n = 0; av[n++] = "prog"; for (int k = 0; k < 5; k++) if (mask >> k & 1) av[n++] = S(arg_[k]); av[n] = 0; return n; }
void needed(void) { /* required options and what options require */
  int req = (int)sx_choose(32, "required"), mask = (int)sx_choose(32, "given"), kind = (int)sx_choose(2, "kind"); char *av[8];
#define RQ(k) FLAGS(kind == 0 && (req >> (k) & 1) ? FLAG_REQUIRED : FLAG_NONE)
  O t[] = { FIVE(RQ(0), RQ(1), RQ(2), RQ(3), RQ(4)), POSITIONAL_STRING("golf", FLAGS(FLAG_OPTIONAL)), OPTION_END() }; static const char *need[6]; int bad = 0, n = 0;
  if (kind == 0) bad = req & ~mask; else { int who = (int)sx_choose(5, "who"); if (!(mask >> who & 1) || req >> who & 1) sx_end(); for (int k = 0; k < 5; k++) if (req >> k & 1) need[n++] = nm[k]; need[n] = 0; if (n) t[who].require = need; bad = req & ~mask; if (bad) bad |= 1 << (who + 8); }
  if (!bad) sx_end(); sx_reach(kind ? "requires" : "required"); int c = given(av, mask); reject(TAB(t), c, av, ARGUS_ERROR_MISSING_REQUIRED);
  int named = 0; for (int k = 0; k < 5; k++) { bool s = said(nm[k]); if (s) { named |= 1 << k; CHECK((bad >> k & 1) || (bad >> (k + 8) & 1), NONE); } } CHECK((named & bad & 31) != 0, BOTH); if (kind) CHECK((named & bad >> 8) != 0, BOTH); CHECK(!said("golf"), NONE);
}
void operand(void) { /* a required positional that is not given */
  int n = 1 + (int)sx_choose(3, "positionals"), g = (int)sx_choose((uint64_t)n, "given"), mask = (int)sx_choose(32, "options"); char *av[12], *p[] = { "golf", "hotel", "india" }; O t[] = { FIVE(FLAGS(0), FLAGS(0), FLAGS(0), FLAGS(0), FLAGS(0)), OPTION_END(), OPTION_END(), OPTION_END(), OPTION_END() };
  for (int k = 0; k < n; k++) t[5 + k] = (O)POSITIONAL_STRING(p[k]); int c = given(av, mask); for (int k = 0; k < g; k++) av[c++] = vf_strset(1, "xy", "operand"); av[c] = 0; reject(TAB(t), c, av, ARGUS_ERROR_MISSING_REQUIRED);
  CHECK(said(p[g]), BOTH); for (int k = 0; k < g; k++) CHECK(!said(p[k]), NONE); for (int k = 0; k < 5; k++) CHECK(!said(nm[k]), NONE);
}
void together(void) { /* conflicts and exclusive groups */
  int mask = (int)sx_choose(32, "given"), kind = (int)sx_choose(2, "kind"), set = (int)sx_choose(32, "set"); char *av[8]; static const char *con[6]; int n = 0, bad; O t[10]; int m = 0, who = 0; const O f[] = { FIVE(FLAGS(0), FLAGS(0), FLAGS(0), FLAGS(0), FLAGS(0)) };
  if (kind) { who = (int)sx_choose(5, "who"); if (!(mask >> who & 1) || set >> who & 1) sx_end(); for (int k = 0; k < 5; k++) if (set >> k & 1) con[n++] = nm[k]; con[n] = 0; bad = set & mask; }
  else { bad = set & mask; if (!(bad & (bad - 1))) sx_end(); }
  if (!bad) sx_end();
  if (kind) { for (int k = 0; k < 5; k++) { t[m] = f[k]; if (k == who) t[m].conflict = con; m++; } }
  else { for (int k = 0; k < 5; k++) if (!(set >> k & 1)) t[m++] = f[k]; t[m++] = (O)GROUP_START("mike", FLAGS(FLAG_EXCLUSIVE)); for (int k = 0; k < 5; k++) if (set >> k & 1) t[m++] = f[k]; t[m++] = (O)GROUP_END(); }
  t[m++] = (O)OPTION_END(); sx_reach(kind ? "conflict" : "exclusive");
  int c = given(av, mask); reject(tab_(t, (size_t)m), c, av, kind ? ARGUS_ERROR_CONFLICTING_OPTIONS : ARGUS_ERROR_EXCLUSIVE_GROUP);
  int named = 0; for (int k = 0; k < 5; k++) if (said(nm[k])) named |= 1 << k; if (kind) { CHECK(named >> who & 1, BOTH); named &= ~(1 << who); CHECK((named & bad) != 0, BOTH); } else CHECK((named & bad & ((named & bad) - 1)) != 0, BOTH); CHECK(!(named & ~bad), NONE);
}
/* the element of a list, the entry of a map or the operand that cannot be read, wherever it stands */
void elements(void) {
  int kind = (int)sx_choose(9, "kind"), n = 1 + (int)sx_choose(Q(3, 5), "elements"), at = (int)sx_choose((uint64_t)n, "at fault"), want; char *w = vf_strset(1 + (size_t)sx_choose(2, "length"), "wq", "text"), *key = vf_strset(2, "UW", "key"), *v = S(""), *good = S("1"), *bad = w, *av[12]; int c = 0; O t[] = { OPTION_FLAG('q', "quiet"), OPTION_INT('i', "int"), OPTION_END() }; bool each = false, map = false, keyed = false;
  switch (kind) {
    case 0: t[1] = (O)OPTION_ARRAY_INT('i', "int"); want = ARGUS_ERROR_INVALID_FORMAT; break; case 1: t[1] = (O)OPTION_ARRAY_FLOAT('i', "int"); want = ARGUS_ERROR_INVALID_FORMAT; break;
    case 2: t[1] = (O)OPTION_MAP_INT('i', "int"); want = ARGUS_ERROR_INVALID_VALUE; map = keyed = true; break; case 3: t[1] = (O)OPTION_MAP_FLOAT('i', "int"); want = ARGUS_ERROR_INVALID_VALUE; map = keyed = true; break; case 4: t[1] = (O)OPTION_MAP_BOOL('i', "int"); want = ARGUS_ERROR_INVALID_VALUE; map = keyed = true; break;
    case 5: t[1] = (O)OPTION_MAP_STRING('i', "int"); want = ARGUS_ERROR_INVALID_FORMAT; map = true; break; case 6: t[1] = (O)OPTION_MAP_INT('i', "int"); want = ARGUS_ERROR_INVALID_FORMAT; map = true; break;
    case 7: t[1] = (O)POSITIONAL_MANY_INT("papa"); want = ARGUS_ERROR_INVALID_VALUE; each = true; break; default: t[1] = (O)POSITIONAL_MANY_FLOAT("papa"); want = ARGUS_ERROR_INVALID_VALUE; each = true; break;
  }
  av[c++] = "prog"; av[c++] = S("-q"); if (keyed) bad = vf_cat(key, vf_cat("=", w));
  for (int k = 0; k < n; k++) { char g[] = { (char)('a' + k), '=', '1', 0 }, *e = k == at ? bad : map ? S(g) : good; if (each) av[c++] = S(e); else v = vf_cat(vf_cat(v, k ? "," : ""), e); } if (!each) av[c++] = vf_cat("--int=", v); av[c] = 0;
  sx_reach(each ? "operands" : map ? "entries" : "elements"); reject(TAB(t), c, av, want); CHECK(said(w), VALUE); if (keyed) CHECK(said(key), "a message names the key at fault"); if (each) CHECK(said("papa"), BOTH);
}
/* a text that could be several commands */
void commands(void) {
  int n = 2 + (int)sx_choose(Q(2, 4), "commands"); O sub[] = { OPTION_END() }, t[8]; char *nm_[6], *w = vf_strset(1 + (size_t)sx_choose(2, "length"), "ux", "text"); int hits = 0, exact = 0, m = 0, named = 0; bool hit[6]; t[m++] = (O)OPTION_FLAG('q', "quiet");
  for (int k = 0; k < n; k++) { char tail[] = { (char)('A' + k), 'J', 0 }; nm_[k] = vf_cat(vf_strset(1 + (size_t)sx_choose(2, "length"), "ux", "command"), tail); size_t l = vf_len(w); bool h = l <= vf_len(nm_[k]); for (size_t i = 0; i < l && h; i++) h = nm_[k][i] == w[i]; hit[k] = h; hits += h; exact += vf_eq(nm_[k], w); t[m++] = (O)SUBCOMMAND(nm_[k], TAB(sub), HELP("h")); }
  t[m++] = (O)OPTION_END(); if (hits < 2 || exact) sx_end(); char *av[] = { "prog", w, 0 }; reject(tab_(t, (size_t)m), 2, av, ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND);
  CHECK(said(w), "a message names the text at fault"); for (int k = 0; k < n; k++) if (said(nm_[k])) { named++; CHECK(hit[k], "a message offers only commands the text could be"); } CHECK(named >= 2, "a message offers the commands the text could be");
}
/* the letter of a bundle that is at fault, and the option a value is missing for */
void letters(void) {
  int kind = (int)sx_choose(3, "kind"), n = (int)sx_choose(3, "flags before"); O t[] = { OPTION_FLAG('a', "alfa"), OPTION_FLAG('b', "bravo"), OPTION_INT('i', "india"), OPTION_STRING('j', "juliett"), OPTION_END() }; char *f = vf_strset((size_t)n, "ab", "flags"), *x = vf_strset(1, "XZ", "letter"), *av[5]; int c = 0; av[c++] = "prog";
  if (kind == 0) { av[c++] = vf_cat("-", vf_cat(f, vf_cat(x, sx_choose(2, "more") ? "a" : ""))); av[c] = 0; reject(TAB(t), c, av, ARGUS_ERROR_INVALID_ARGUMENT); CHECK(said(x), "a message names the letter at fault"); CHECK(!said("a") && !said("b"), NONE); return; }
  bool s = sx_choose(2, "type"); char *w = S(s ? "j" : "i"), *l = S(s ? "juliett" : "india"); if (kind == 1) av[c++] = vf_cat("-", vf_cat(f, w)); else { if (n) av[c++] = vf_cat("-", f); av[c++] = vf_cat("--", l); } av[c] = 0; reject(TAB(t), c, av, ARGUS_ERROR_MISSING_VALUE); CHECK(said(w) || said(l), BOTH); CHECK(!said("a") && !said("b") && !said("alfa") && !said("bravo") && !said(S(s ? "i" : "j")) && !said(S(s ? "india" : "juliett")), NONE);
}
/* a pattern's hint, if there is one */
void hint(void) {
  vf_regex_real = 1; bool h = sx_choose(2, "hint"); char *w = vf_strset(1 + (size_t)sx_choose(3, "length"), "kmz", "text"), *t = vf_strset(3, "HJ", "hint"); O o[] = { OPTION_FLAG('q', "quiet"), OPTION_STRING('s', "str", VALIDATOR(V_REGEX(MAKE_REGEX("^[a-c]+$", h ? t : NULL)))), OPTION_END() }; char *av[] = { "prog", vf_cat("-s", w), 0 };
  reject(TAB(o), 2, av, ARGUS_ERROR_INVALID_VALUE); CHECK(said(w), VALUE); if (h) CHECK(said(t), "a message carries the pattern's hint");
}
/* what an application's own callbacks report arrives whole, with the status they gave */
static char *own_t; static argus_error_type_t own_e; static int own_n;
static int own_h(argus_t *a, argus_option_t *o, char *arg) { (void)arg; (void)o; own_n++; ARGUS_PARSING_ERROR(a, own_e, "%s", own_t); return (int)own_e; }
static int own_v(argus_t *a, void *p, validator_data_t d) { (void)p; (void)d; own_n++; ARGUS_PARSING_ERROR(a, own_e, "<%s>", own_t); return (int)own_e; }
void own(void) {
  static const size_t len[] = { 0, 1, 17, 200, 300, 1200 }; size_t n = len[sx_choose(Q(5, 6), "length")]; int kind = (int)sx_choose(4, "who"); own_n = 0; own_t = vf_cat(vf_strset(n < 2 ? n : 2, "%kd\\", "text"), ""); while (vf_len(own_t) < n) own_t = vf_cat(own_t, n - vf_len(own_t) > 99 ? "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvw" : "z");
  own_e = sx_choose(2, "status") ? ARGUS_ERROR_INVALID_VALUE : ARGUS_ERROR_INVALID_FORMAT; O t[] = { OPTION_FLAG('q', "quiet"), OPTION_STRING('s', "str"), OPTION_FLAG('z', "zulu"), POSITIONAL_STRING("papa", FLAGS(FLAG_OPTIONAL)), OPTION_END() }; char *av[] = { "prog", S("-q"), S("x"), 0 };
  switch (kind) { case 0: t[1].handler = own_h; av[2] = S("--str=x"); break; case 1: t[3].handler = own_h; break; case 2: e_ = (validator_entry_t){ .func = own_v }; e_.order = ORDER_POST; ev_[0] = &e_; ev_[1] = NULL; t[1].validators = ev_; av[2] = S("-sx"); break; default: t[2].handler = own_h; av[2] = S("-z"); break; }
  sx_reach(kind == 2 ? "validator" : "handler"); reject(TAB(t), 3, av, (int)own_e); CHECK(own_n == 1, "a callback that refuses is not asked again"); char *w = kind == 2 ? vf_cat("<", vf_cat(own_t, ">")) : own_t; CHECK(printed(1, vf_cat("prog: ", vf_cat(w, "\n"))), "what a callback reports arrives whole");
}
