/* Environment variables: which one, when, and how it reads. */
#include "common.h"
#include <string.h>
static char up(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c == '-' ? '_' : c; }
/* the variable an option is bound to, or NULL */
static char *bound(const char *prefix, const char *env, const char *name, unsigned flags) {
  char *w = NULL; if (env) w = vf_cat(env, ""); else if (flags & FLAG_AUTO_ENV) { w = vf_cat(name, ""); for (char *p = w; *p; p++) *p = up(*p); } else return NULL;
  if ((flags & FLAG_NO_ENV_PREFIX) || !prefix || !*prefix) return w;
  size_t n = vf_len(prefix); char *full = prefix[n - 1] == '_' ? vf_cat(prefix, "") : vf_cat(prefix, "_");
  if (!env) { for (char *p = full; *p; p++) *p = up(*p); return vf_cat(full, w); }
  if (vf_len(w) >= vf_len(full) && !strncmp(w, full, vf_len(full))) return w; /* declared with its prefix */
  return vf_cat(full, w);
}
/* any one variable: it fills the option bound to it and no other */
void name_any(void) {
  static const char *const pre[] = {NULL, "AB", "AB_", "C", "", "Ab"}; const char *p = pre[sx_choose(Q(5, 6), "prefix")]; argus_t a; char *en = vf_strset(1 + sx_choose(2, "length"), "ABC_x", "envname");
  unsigned f0 = sx_choose(2, "bare") ? FLAG_NO_ENV_PREFIX : 0, f1 = (sx_choose(2, "auto") ? FLAG_AUTO_ENV : 0) | f0;
  O t[] = { OPTION_STRING('a', "aa", ENV_VAR(en), FLAGS((argus_optflags_t)f0)), OPTION_STRING('b', "b-c", FLAGS((argus_optflags_t)f1)), OPTION_STRING('d', "dd"), POSITIONAL_STRING("x", FLAGS(FLAG_OPTIONAL), ENV_VAR("PX")), OPTION_END() };
  if (p && *p && !strncmp(en, p, vf_len(p)) && p[vf_len(p) - 1] != '_') sx_assume(en[vf_len(p)] == '_'); /* a name that merely starts with the letters of the prefix is unspecified */
  char *var = vf_strmax(Q(6, 8), "variable"), *val = vf_strmax(2, "value"); vf_env(var, val); vf_on_exit = no_exit;
  a = argus_init(t, "prog", "1"); a.env_prefix = p; int st = argus_parse(&a, 1, ARGS(NULL));
  char *w0 = bound(p, en, "aa", f0), *w1 = bound(p, NULL, "b-c", f1), *w2 = bound(p, "PX", "x", 0); bool h0 = vf_eq(w0, var), h1 = w1 && vf_eq(w1, var), h2 = vf_eq(w2, var);
  CHECK(st == 0, "environment variables with plain texts are accepted");
  CHECK(argus_is_set(&a, "aa") == h0 && argus_is_set(&a, "b-c") == h1 && argus_is_set(&a, "x") == h2, "an option is set exactly by the variable bound to it"); CHECK(!argus_is_set(&a, "dd"), "an option bound to no variable is not set by one");
  if (h0) { sx_reach("declared"); CHECK(vf_eq(argus_get(&a, "aa").as_string, val), "the value is the variable's"); } if (h1) { sx_reach("derived"); CHECK(vf_eq(argus_get(&a, "b-c").as_string, val), "the value is the variable's"); } if (h2) { sx_reach("positional"); CHECK(vf_eq(argus_get(&a, "x").as_string, val), "the value is the variable's"); }
  argus_free(&a); CHECK(a.options == t || true, "freed");
}
/* the derived name of any option name */
void name_auto(void) {
  char *n = vf_strmax(Q(3, 4), "name"); bool pre = sx_choose(2, "prefix"), bare = sx_choose(2, "bare"), given = false; argus_t a; if (!*n) sx_end();
  for (char *q = n; *q; q++) sx_assume((*q >= 'a' && *q <= 'z') | (*q >= 'A' && *q <= 'Z') | (*q >= '0' && *q <= '9') | (*q == '-') | (*q == '_')); sx_assume(n[0] != '-');
  O t[] = { OPTION_STRING('a', n, FLAGS((argus_optflags_t)(FLAG_AUTO_ENV | (bare ? FLAG_NO_ENV_PREFIX : 0)))), OPTION_END() }; vf_on_exit = no_exit;
  char *full = pre && !bare ? vf_cat("AP_", n) : vf_cat(n, ""); for (char *q = full; *q; q++) *q = up(*q);
  char *var = vf_strn(vf_len(full), "variable"); vf_env(var, S("v")); a = argus_init(t, "prog", "1"); a.env_prefix = pre ? "AP" : NULL; int st = argus_parse(&a, 1, ARGS(NULL)); given = vf_eq(var, full);
  CHECK(st == 0 && argus_is_set(&a, n) == given, "the variable derived from a name is the name in capitals, dashes as underscores, after the prefix"); argus_free(&a);
}
/* long names: the whole of the name counts */
static char *longer(const char *s, int n, char with) { char *r = vf_mem((size_t)n + 1); int k = (int)vf_len(s); for (int i = 0; i < n; i++) r[i] = i < k ? s[i] : with; r[n] = 0; return r; }
void name_long(void) {
  static const int len[] = {15, 16, 31, 32, 40, 62, 63, 64, 80, 90}, plen[] = {0, 2, 15, 30, 36}; int n = len[sx_choose(ARRLEN(len), "length")], m = plen[sx_choose(ARRLEN(plen), "prefix")], kind = (int)sx_choose(3, "bound"), way = (int)sx_choose(5, "variable"); argus_t a; char *nm = longer("a", n, kind == 0 ? 'B' : 'b'), *p = m ? longer("P", m, 'Q') : NULL; nm[n / 2] = '_'; nm[n - 1] = kind == 0 ? 'Z' : 'z';
  unsigned f = sx_choose(2, "bare") ? FLAG_NO_ENV_PREFIX : 0; if (kind == 2) f |= FLAG_AUTO_ENV; O t[] = { kind == 0 ? OPTION_STRING('a', "aa", ENV_VAR(nm), FLAGS((argus_optflags_t)f)) : kind == 1 ? POSITIONAL_STRING("aa", ENV_VAR(nm), FLAGS((argus_optflags_t)(f | FLAG_OPTIONAL))) : OPTION_STRING('a', nm, FLAGS((argus_optflags_t)f)), OPTION_END() };
  char *w = bound(p, kind == 2 ? NULL : nm, nm, f), *v = vf_cat(w, ""); int k = (int)vf_len(w); if (k > 126) sx_end(); /* the documented limit of a name */
  if (way == 1) v = vf_cat(w, "X"); else if (way == 2) v[k - 1] = 0; else if (way == 3) v[k - 1] = 'y'; else if (way == 4) v[k / 2] = v[k / 2] == 'Y' ? 'V' : 'Y';
  vf_env(v, S("val")); vf_on_exit = no_exit; a = argus_init(t, "prog", "1"); a.env_prefix = p; int st = argus_parse(&a, 1, ARGS(NULL)); CHECK(st == 0, "environment variables with plain texts are accepted"); CHECK(argus_is_set(&a, kind == 2 ? nm : "aa") == (way == 0), "an option is set exactly by the variable bound to it"); if (way == 0) { sx_reach("read"); CHECK(vf_eq(argus_get(&a, kind == 2 ? nm : "aa").as_string, "val"), "the value is the variable's"); } argus_free(&a);
}
/* command line, environment, default: who wins, for every kind of option */
void precedence(void) {
  int k = (int)sx_choose(9, "kind"); bool given = sx_choose(2, "given"), env = sx_choose(2, "env"), over = sx_choose(2, "override"), def = sx_choose(2, "default"), neg = sx_choose(2, "empty"); argus_t a; argus_optflags_t f = over ? FLAG_ENV_OVERRIDE : FLAG_NONE; O t[2]; memset(t, 0, sizeof t); (void)neg;
  char *x = k == 3 ? S("no") : vf_strset(2, "0123456789", "argument"), *y = k == 3 || k == 4 ? S("yes") : vf_strset(2, "0123456789", "variable"); if (k == 4 && sx_choose(2, "off")) y = S("off");
  char *mx = vf_cat("k=", x), *my = vf_cat("k=", y); if (k >= 4) def = false;
  switch (k) {
    case 0: if (def) t[0] = (O)OPTION_STRING('o', "opt", ENV_VAR("V"), FLAGS(f), DEFAULT("77")); else t[0] = (O)OPTION_STRING('o', "opt", ENV_VAR("V"), FLAGS(f)); break;
    case 1: if (def) t[0] = (O)OPTION_INT('o', "opt", ENV_VAR("V"), FLAGS(f), DEFAULT(77)); else t[0] = (O)OPTION_INT('o', "opt", ENV_VAR("V"), FLAGS(f)); break;
    case 2: if (def) t[0] = (O)OPTION_FLOAT('o', "opt", ENV_VAR("V"), FLAGS(f), DEFAULT(77.0)); else t[0] = (O)OPTION_FLOAT('o', "opt", ENV_VAR("V"), FLAGS(f)); break;
    case 3: if (def) t[0] = (O)OPTION_BOOL('o', "opt", ENV_VAR("V"), FLAGS(f), DEFAULT(false)); else t[0] = (O)OPTION_BOOL('o', "opt", ENV_VAR("V"), FLAGS(f)); break;
    case 4: t[0] = (O)OPTION_FLAG('o', "opt", ENV_VAR("V"), FLAGS(f)); break;
    case 5: t[0] = (O)OPTION_ARRAY_STRING('o', "opt", ENV_VAR("V"), FLAGS(f)); break;
    case 6: t[0] = (O)OPTION_ARRAY_INT('o', "opt", ENV_VAR("V"), FLAGS(f)); break;
    case 7: t[0] = (O)OPTION_MAP_STRING('o', "opt", ENV_VAR("V"), FLAGS(f)); break;
    default: t[0] = (O)POSITIONAL_STRING("opt", ENV_VAR("V"), FLAGS(over ? FLAG_OPTIONAL | FLAG_ENV_OVERRIDE : FLAG_OPTIONAL)); break;
  }
  t[1] = (O)OPTION_END(); if (env) vf_env("V", k == 7 ? my : y); int st;
  if (!given) st = go(&a, t, 1, ARGS(NULL)); else if (k == 4) st = GO(a, t, S("-o")); else if (k == 8) st = GO(a, t, x); else st = GO(a, t, S("--opt"), k == 7 ? mx : x);
  CHECK(st == 0, "well-formed values are accepted"); int src = given && !(env && over) ? 1 : env ? 2 : def ? 3 : 0; char *v = src == 1 ? x : src == 2 ? y : S("77"); int64_t n = k == 3 || k == 4 ? 0 : (v[0] - '0') * 10 + v[1] - '0';
  CHECK(argus_is_set(&a, "opt") == (src != 0), "an option is set exactly when something gave it a value"); if (!src) { sx_reach("unset"); return; }
  argus_value_t r = k < 5 || k == 8 ? argus_get(&a, "opt") : (argus_value_t){0}; sx_reach(src == 1 ? "argument" : src == 2 ? "variable" : "default");
  const char *m = "the command line outranks the environment unless overridden, which outranks the default";
  if (k == 0 || k == 8) CHECK(vf_eq(r.as_string, v), m); else if (k == 1) CHECK(r.as_int64 == n, m); else if (k == 2) CHECK(r.as_float == (double)n, m); else if (k == 3) CHECK(r.as_bool == (src == 2), m); else if (k == 4) CHECK(r.as_bool == (src == 1 || vf_eq(y, "yes")), m);
  else { CHECK(argus_count(&a, "opt") == 1, "the environment does not add to what the command line gave"); argus_value_t e = k == 7 ? argus_map_get(&a, "opt", "k") : argus_array_get(&a, "opt", 0); if (k == 6) CHECK(e.as_int64 == n, m); else CHECK(vf_eq(e.as_string, v), m); }
  argus_free(&a);
}
/* a variable reads exactly like an argument: two runs are compared */
static O rd[] = { OPTION_STRING('s', "str", ENV_VAR("S")), OPTION_INT('i', "int", ENV_VAR("I")), OPTION_BOOL('b', "bool", ENV_VAR("B")), OPTION_FLOAT('f', "float", ENV_VAR("F")), OPTION_ARRAY_STRING('l', "list", ENV_VAR("L")), OPTION_ARRAY_INT('n', "nums", ENV_VAR("N")), OPTION_MAP_STRING('m', "map", ENV_VAR("M")), OPTION_MAP_BOOL('x', "mapb", ENV_VAR("X")), OPTION_END() };
void reads(void) {
  static const char *const nm[] = {"str", "int", "bool", "float", "list", "nums", "map", "mapb"}; int k = (int)sx_choose(8, "kind"); O *o = TAB(rd), *q = TAB(rd); argus_t a, b; const char *n = nm[k];
  char *v = k == 0 ? vf_strmax(6, "text") : k == 1 ? vf_strset(sx_choose(4, "length"), "-+019 x", "text") : k == 3 ? vf_strset(sx_choose(4, "length"), "-+.e15 x", "text") : k == 5 ? vf_strset(sx_choose(Q(4, 5), "length"), "-0,5 x", "text") : k == 7 ? vf_strset(sx_choose(5, "length"), "k=1n,", "text") : vf_strmax(Q(4, 5), "text");
  char ev[2] = { "SIBFLNMX"[k], 0 }; int st = GO(a, o, vf_cat("--", vf_cat(n, vf_cat("=", v)))), n1 = (int)argus_count(&a, n); vf_env(S(ev), v); int st2 = go(&b, q, 1, ARGS(NULL));
  CHECK(st == st2, "a variable is accepted or rejected exactly like an argument"); if (st) { sx_reach("rejected"); return; } sx_reach("accepted");
  CHECK(argus_is_set(&a, n) == argus_is_set(&b, n) && (int)argus_count(&b, n) == n1, "a variable gives exactly what the argument gives");
  if (k == 0) CHECK(vf_eq(argus_get(&a, n).as_string, argus_get(&b, n).as_string), "a variable reads like an argument"); else if (k == 1) CHECK(argus_get(&a, n).as_int64 == argus_get(&b, n).as_int64, "a variable reads like an argument"); else if (k == 2) CHECK(argus_get(&a, n).as_bool == argus_get(&b, n).as_bool, "a variable reads like an argument"); else if (k == 3) CHECK(argus_get(&a, n).raw == argus_get(&b, n).raw, "a variable reads like an argument");
  else for (int i = 0; i < n1; i++) { if (k == 4) CHECK(vf_eq(argus_array_get(&a, n, (size_t)i).as_string, argus_array_get(&b, n, (size_t)i).as_string), "a variable reads like an argument"); else if (k == 5) CHECK(argus_array_get(&a, n, (size_t)i).as_int64 == argus_array_get(&b, n, (size_t)i).as_int64, "a variable reads like an argument"); else { CHECK(vf_eq(o[k].value.as_map[i].key, q[k].value.as_map[i].key), "a variable reads like an argument"); if (k == 6) CHECK(vf_eq(o[k].value.as_map[i].value.as_string, q[k].value.as_map[i].value.as_string), "a variable reads like an argument"); else CHECK(o[k].value.as_map[i].value.as_bool == q[k].value.as_map[i].value.as_bool, "a variable reads like an argument"); } }
  argus_free(&a); argus_free(&b);
}
/* every command level reached is filled, no other; several options may share a variable */
void levels(void) {
  int path = (int)sx_choose(4, "path"); argus_t a; char *v = vf_strmax(2, "shared"), *w = vf_strmax(2, "own"); vf_env("SH", v); bool own = sx_choose(2, "own"), give = sx_choose(2, "given"); if (own) vf_env("OW", w); vf_on_exit = no_exit;
  O deep[] = { OPTION_STRING('d', "dd", ENV_VAR("SH")), OPTION_STRING('e', "ee", ENV_VAR("OW")), OPTION_END() };
  O s1[] = { OPTION_STRING('a', "aa", ENV_VAR("SH")), SUBCOMMAND("deep", deep), OPTION_STRING('b', "bb", ENV_VAR("OW")), OPTION_END() }, s2[] = { OPTION_STRING('c', "cc", ENV_VAR("SH")), OPTION_END() };
  O t[] = { GROUP_START("g"), OPTION_STRING('r', "rr", ENV_VAR("SH")), GROUP_END(), SUBCOMMAND("one", s1), SUBCOMMAND("two", s2), OPTION_STRING('z', "zz", ENV_VAR("OW")), OPTION_END() };
  char *av[8]; int c = 0; av[c++] = "prog"; if (path) av[c++] = path == 2 ? S("two") : S("one"); if (path == 3) av[c++] = S("deep"); if (give && path) { av[c++] = path == 1 ? S("-a") : path == 2 ? S("-c") : S("-d"); av[c++] = S("arg"); } av[c] = 0;
  int st = go(&a, t, c, av); bool in1 = path == 1 || path == 3, in2 = path == 2, in3 = path == 3; CHECK(st == 0, "plain texts are accepted");
  bool set[] = { t[1].is_set, t[5].is_set, s1[0].is_set, s1[2].is_set, s2[0].is_set, deep[0].is_set, deep[1].is_set }, want[] = { true, own, in1, in1 && own, in2, in3, in3 && own }; for (int i = 0; i < 7; i++) CHECK(set[i] == want[i], "the environment fills the options of the levels reached and no other");
  CHECK(vf_eq(t[1].value.as_string, v), "options may share a variable"); if (own) CHECK(vf_eq(t[5].value.as_string, w), "the value is the variable's");
  O *inner = path == 1 ? &s1[0] : path == 2 ? &s2[0] : path == 3 ? &deep[0] : NULL; if (inner) CHECK(vf_eq(inner->value.as_string, give ? "arg" : v), "the command line outranks the environment at every level"); if (in3 && own) CHECK(vf_eq(deep[1].value.as_string, w), "the value is the variable's");
}
/* longer chains of commands, every kind of entry, with a prefix */
void levels_deep(void) {
  int n = (int)sx_choose(Q(6, 11), "commands"), x = (int)sx_choose((uint64_t)n + 2, "level"), how = (int)sx_choose(5, "how"); bool pre = sx_choose(2, "prefix"), give = sx_choose(2, "given"), in = x <= n; argus_t a; char *v = vf_strmax(2, "text"); vf_on_exit = no_exit; O *lv[13]; char *av[48]; int c = 0; av[c++] = "prog"; 
  for (int k = n + 1; k >= 0; k--) { O t[] = { OPTION_FLAG('f', "ff", ENV_VAR("NEVER")), GROUP_START("g"), OPTION_STRING('s', "my-text", ENV_VAR("TEXT")), GROUP_END(), SUBCOMMAND("go", NULL), OPTION_ARRAY_STRING('l', "list-of", FLAGS(FLAG_AUTO_ENV)), POSITIONAL_STRING("pos", FLAGS(FLAG_OPTIONAL)), OPTION_END() }; if (k <= n) t[4].sub_options = lv[k + 1]; else t[4] = (O)OPTION_FLAG('x', "xx"); if (k != x) { t[2].env_name = t[5].env_name = NULL; t[5].flags &= ~FLAG_AUTO_ENV; } if (how == 1) t[2].flags |= FLAG_ENV_OVERRIDE; if (k == x && how == 2) t[6].env_name = "TEXT", t[2].env_name = NULL; if (k == x && how == 3) t[2].flags |= FLAG_AUTO_ENV, t[2].env_name = NULL; lv[k] = TAB(t); }
  vf_env(pre ? how == 3 ? "PRE_MY_TEXT" : "PRE_TEXT" : how == 3 ? "MY_TEXT" : "TEXT", v); if (how == 4) vf_env(pre ? "PRE_LIST_OF" : "LIST_OF", S("e,f")); vf_env(pre ? "TEXT2" : "PRE_TEXT", S("wrong"));
  for (int k = 0; k <= n; k++) { if (give && k == x) { if (how == 4) av[c++] = S("-lo"); if (how != 2) { av[c++] = S("--my-text"); av[c++] = S("arg"); } else av[c++] = S("arg"); } if (k < n) av[c++] = S("go"); } av[c] = 0;
  a = argus_init(lv[0], "prog", "1"); if (pre) a.env_prefix = "PRE"; int st = argus_parse(&a, c, av); CHECK(st == 0, "plain texts are accepted");
  for (int k = 0; k <= n + 1; k++) { bool here = k == x && in; CHECK(!lv[k][0].is_set, "an unset variable fills nothing"); CHECK(lv[k][2].is_set == (here && how != 2) && lv[k][6].is_set == (here && how == 2) && lv[k][5].is_set == (here && how == 4), "the environment fills the options of the levels reached and no other"); if (!here) continue; O *o = &lv[k][how == 2 ? 6 : 2]; CHECK(vf_eq(o->value.as_string, give && how != 1 ? "arg" : v), "the command line outranks the environment at every level unless overridden"); if (how == 4) CHECK(lv[k][5].value_count == (give ? 1 : 2) && vf_eq(lv[k][5].value.as_array[0].as_string, give ? "o" : "e"), "the command line outranks the environment at every level unless overridden"); }
  sx_reach(in ? "filled" : "not reached"); argus_free(&a);
}
/* what the environment gives counts as given for a requirement, and malformed values are rejected wherever the option stands */
void rejected(void) {
  bool sub = sx_choose(2, "command"), over = sx_choose(2, "override"), give = sx_choose(2, "given"); argus_t a; char *v = vf_strmax(3, "text"); argus_optflags_t f = over ? FLAG_ENV_OVERRIDE : FLAG_NONE; vf_env("N", v); vf_on_exit = no_exit;
  O s[] = { OPTION_INT('n', "num", ENV_VAR("N"), FLAGS(f)), OPTION_END() }, t[] = { OPTION_STRING('x', "xx", ENV_VAR("NN")), SUBCOMMAND("cmd", s), OPTION_END() }; O *u = sub ? t : s; int st;
  if (sub) st = give ? GO(a, t, S("cmd"), S("-n"), S("7")) : GO(a, t, S("cmd")); else st = give ? GO(a, s, S("-n7")) : go(&a, s, 1, ARGS(NULL)); (void)u;
  bool ok = *v != 0, any = false; int64_t z = 0; char *q = v; bool neg = *q == '-'; if (*q == '-' || *q == '+') q++; for (; *q; q++) { any = true; ok &= *q >= '0' && *q <= '9'; z = z * 10 + *q - '0'; } ok &= any; if (neg) z = -z; if (v[0] == ' ' || (v[0] >= 9 && v[0] <= 13)) sx_end(); /* leading space is P10's */
  if (give && !over) { CHECK(st == 0 && s[0].value.as_int64 == 7, "the command line decides"); return; }
  if (ok) { sx_reach("number"); CHECK(st == 0 && s[0].value.as_int64 == z, "a number in the environment is read"); } else { sx_reach("malformed"); CHECK(st == ARGUS_ERROR_INVALID_FORMAT, "a malformed value in the environment is rejected"); }
}
