/* Memory and resources, for everything the library does. */
#include "common.h"
#include <string.h>
static const int64_t ci[] = {1, 22, -3}; static const double cf[] = {0.5, 2.0}; static const char *const cs[] = {"a", "bb", "-"};
static validator_entry_t vr = { 0 }, *lr[] = { &vr, NULL }, vlen, *ll[] = { &vlen, NULL }, vcnt, *lc[] = { &vcnt, NULL }, vcs, *lcs[] = { &vcs, NULL }, vci, *lci[] = { &vci, NULL }, vcf, *lcf[] = { &vcf, NULL }, vre, *lre[] = { &vre, NULL };
extern int vf_regex_outcome;
static void limits(void) {
  regex_data_t r = { .pattern = "p", .hint = NULL }; vr = *V_RANGE(-9, 99); vlen = *V_LENGTH(0, 3); vcnt = *V_COUNT(1, 3); vcs = *V_CHOICE_STR("a"); vcs.data.choices.as_strings = (const char **)cs; vcs.data.choices.count = 3; vci = *V_CHOICE_INT(1); vci.data.choices.as_ints = (int64_t *)ci; vci.data.choices.count = 3; vcf = *V_CHOICE_FLOAT(1.0); vcf.data.choices.as_floats = (double *)cf; vcf.data.choices.count = 2; vre = *V_REGEX(r);
}
static const char *const req[] = {"str", NULL}, *const cnf[] = {"fl", NULL};
/* every kind of entry; the command has its own */
enum { DEEP = 4 };
static O *full(void) {
  limits(); O cmd[] = { HELP_OPTION(), OPTION_ARRAY_STRING('A', "as", FLAGS(FLAG_SORTED | FLAG_UNIQUE)), OPTION_MAP_INT('N', "mi"), POSITIONAL_STRING("cp", FLAGS(FLAG_OPTIONAL)), POSITIONAL_MANY_STRING("cn", FLAGS(FLAG_OPTIONAL)), OPTION_END() }, cmf[] = { POSITIONAL_MANY_FLOAT("fn", FLAGS(FLAG_SORTED | FLAG_UNIQUE)), OPTION_END() };
  O t[] = { HELP_OPTION(), VERSION_OPTION(), OPTION_STRING('s', "str", ENV_VAR("STR")), OPTION_INT('i', "int", ENV_VAR("INT"), FLAGS(FLAG_ENV_OVERRIDE)), OPTION_FLOAT('f', "flt"), OPTION_BOOL('b', "bool", DEFAULT(true)), OPTION_FLAG('g', "fl", ENV_VAR("FLG")), OPTION_STRING('d', "def", DEFAULT("dd")), GROUP_START("g", FLAGS(FLAG_EXCLUSIVE)),
    OPTION_ARRAY_STRING('A', "as", FLAGS(FLAG_SORTED | FLAG_UNIQUE)), OPTION_ARRAY_INT('I', "ai", FLAGS(FLAG_SORTED), ENV_VAR("AI")), GROUP_END(), OPTION_ARRAY_FLOAT('F', "af", FLAGS(FLAG_UNIQUE)), OPTION_MAP_STRING('M', "ms", FLAGS(FLAG_SORTED_KEY), ENV_VAR("MS")), OPTION_MAP_INT('N', "mi", FLAGS(FLAG_SORTED_VALUE)), OPTION_MAP_FLOAT('L', "mf", FLAGS(FLAG_UNIQUE_VALUE)), OPTION_MAP_BOOL('B', "mb"),
    OPTION_STRING('x', "len"), OPTION_INT('y', "chi"), OPTION_STRING('z', "chs"), OPTION_STRING('r', "re"), OPTION_ARRAY_INT('c', "cnt"), OPTION_FLOAT('e', "chf"), OPTION_INT('q', "rq"), OPTION_INT('k', "ck"), SUBCOMMAND("cmd", TAB(cmd)), SUBCOMMAND("cmf", TAB(cmf)), POSITIONAL_STRING("p1", FLAGS(FLAG_OPTIONAL)), POSITIONAL_MANY_INT("pn", FLAGS(FLAG_OPTIONAL)), OPTION_END() };
  for (O *o = t; o->type != TYPE_NONE; o++) { const char *n = o->name; if (!n) continue; if (vf_eq(n, "int")) o->validators = lr; if (vf_eq(n, "len")) o->validators = ll; if (vf_eq(n, "chi")) o->validators = lci; if (vf_eq(n, "chs")) o->validators = lcs; if (vf_eq(n, "re")) o->validators = lre; if (vf_eq(n, "cnt")) o->validators = lc; if (vf_eq(n, "chf")) o->validators = lcf; if (vf_eq(n, "rq")) o->require = (const char **)req; if (vf_eq(n, "ck")) o->conflict = (const char **)cnf; }
  return TAB(t);
}
static void text(const char *s) { if (s) sx_readable(s, vf_len(s) + 1); }
/* reads all there is to read */
static void look(argus_t *a, const char *n, O *o) {
  argus_value_t v = argus_get(a, n); (void)argus_is_set(a, n); size_t c = argus_count(a, n); bool arr = o->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_VARIADIC), map = o->value_type & VALUE_TYPE_MAP; if (o->value_type == VALUE_TYPE_STRING) text(v.as_string);
  for (size_t i = 0; i <= c; i++) { argus_value_t e = argus_array_get(a, n, i); if (o->value_type == VALUE_TYPE_ARRAY_STRING || o->value_type == VALUE_TYPE_VARIADIC_STRING) text(e.as_string); }
  argus_array_it_t it = argus_array_it(a, n); size_t k = 0; while (argus_array_next(&it)) k++; CHECK(k == (arr ? c : 0), "reading ends"); argus_map_it_t mt = argus_map_it(a, n); k = 0; while (argus_map_next(&mt)) { k++; text(mt.key); if (o->value_type == VALUE_TYPE_MAP_STRING) text(mt.value.as_string); (void)argus_map_get(a, n, mt.key); } CHECK(k == (map ? c : 0), "reading ends");
}
static void look_all(argus_t *a, O *t) { for (O *o = t; o->type != TYPE_NONE; o++) if (o->name && o->type != TYPE_GROUP && o->type != TYPE_SUBCOMMAND) look(a, o->name, o); if (a->subcommand_depth && t == a->options) look_all(a, a->subcommand_stack[a->subcommand_depth - 1]->sub_options); }
static size_t base; static bool own; /* judge what is left behind */
static void released(int code) { CHECK(code == 0, "only help and version end the program"); if (own) CHECK(sx_live() == base, "everything is released before the program ends"); sx_reach("ended"); }
/* parse, read, free, and read again */
static void life(O *t, int c, char **av) {
  vf_on_exit = released; vf_capture = vf_vague = 1; vf_regex_outcome = 1; argus_t a; base = sx_live(); int st = go(&a, t, c, av);
  if (st == 0) { sx_reach("accepted"); look_all(&a, t); argus_free(&a); } else { sx_reach("rejected"); CHECK(st > 0 && argus_strerror((argus_error_type_t)st) != NULL, "a rejection has a status"); if (own) CHECK(sx_live() == base, "a rejected command line leaves nothing behind"); if (sx_choose(2, "free")) argus_free(&a); }
  if (own) CHECK(sx_live() == base, "after freeing nothing is left"); look_all(&a, t); argus_free(&a); if (own) CHECK(sx_live() == base, "after freeing nothing is left");
}
void argv1(void) { char *av[] = { "prog", vf_strmax(Q(5, 6), "argument"), NULL }; life(full(), 2, av); }
void argv2(void) { char *av[] = { "prog", vf_strmax(Q(2, 3), "argument"), vf_strmax(Q(3, 4), "argument"), NULL }; life(full(), 3, av); }
void argv3(void) { char *av[] = { "prog", vf_strmax(Q(2, 3), "argument"), vf_strmax(Q(2, 2), "argument"), vf_strmax(Q(1, 2), "argument"), NULL }; life(full(), 4, av); }
void argv0(void) { char *av[] = { NULL, NULL }; int c = (int)sx_choose(2, "count"); if (c) av[0] = "prog"; life(full(), c, av); }
/* values of every kind, once or twice, of letters that matter */
static const struct { const char *n, *set; int max; bool any; } val[] = {
  {"--str=", NULL, 4, 0}, {"--int=", "-019x", 4, 1}, {"--flt=", "-0.9e", 4, 0}, {"--bool=", "yYesnoft1", 3, 0}, {"--as=", "a,b-", 5, 0}, {"--ai=", "-,1x:", 5, 0}, {"--af=", ".,1-", 4, 0}, {"--ms=", "=,ab", 5, 0}, {"--mi=", "=,1a", 5, 0}, {"--mf=", "=,1a", 5, 0}, {"--mb=", "=,1a", 5, 0}, {"--len=", NULL, 4, 0}, {"--chi=", "1-23", 3, 0}, {"--chs=", "ab-", 3, 0}, {"--re=", NULL, 2, 0}, {"--cnt=", ",-12", 5, 0}, {"--chf=", "0.52", 3, 0}, {"--rq=", "1x", 2, 0}, {"--ck=", "1x", 2, 0}, {"--def=", NULL, 2, 0} };
enum { NVAL = ARRLEN(val) };
static char *any_of(int k, int max, const char *name) { int n = (int)sx_choose((uint64_t)(max + 1), "length"); return val[k].set ? vf_strset((size_t)n, val[k].set, name) : vf_strn((size_t)n, name); }
void value1(void) { int k = (int)sx_choose(NVAL, "option"); char *av[] = { "prog", vf_cat(val[k].n, any_of(k, val[k].max + Q(0, 1), "value")), NULL }; if (sx_choose(2, "rejected later")) { char *bv[] = { "prog", av[1], "--str=s", "--nope", NULL }; life(full(), 4, bv); return; } life(full(), 2, av); }
void value2(void) { own = true; int k = (int)sx_choose(NVAL, "option"); char *av[] = { "prog", vf_cat(val[k].n, any_of(k, Q(2, 3), "value")), vf_cat(val[k].n, any_of(k, 2, "value")), sx_choose(2, "required") ? "--str=q" : "--def=", NULL }; life(full(), 4, av); }
/* values around the sizes of buffers, all of one byte but three */
void value_long(void) {
  static const int len[] = {5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256}; int k = (int)sx_choose(NVAL, "option"), n = len[sx_choose(ARRLEN(len), "length")]; if (k == 14) return;
  const char *set = val[k].set ? val[k].set : "ab-"; if (k == 5 || k == 15) set = "1x,"; bool flt = k == 2 || k == 6 || k == 9 || k == 16; if (flt) set = "1"; if (k == 1 || k == 8 || k == 10) set = Q("1x", "1x,"); char *x = vf_mem((size_t)n + 1), *e = vf_strset(3, set, "letters"), fill = k == 4 || k == 7 || !val[k].set ? 'a' : '1'; for (int i = 0; i < n; i++) x[i] = fill; x[0] = e[0]; x[n / 2] = e[1]; x[n - 1] = e[2]; x[n] = 0; char *v = k == 10 ? vf_cat("a=", x) : x; char *av[] = { "prog", vf_cat(val[k].n, v), NULL };
  O *t = full(); vf_on_exit = released; vf_capture = vf_vague = 1; argus_t a; base = sx_live(); int st = go(&a, t, 2, av); if (st == 0) { sx_reach("accepted"); for (O *o = t; o->type != TYPE_NONE; o++) if (o->is_set && o->type == TYPE_OPTION) look(&a, o->name, o); argus_free(&a); } else sx_reach("rejected"); CHECK(sx_live() == base, "after freeing nothing is left");
}
/* values from the environment over those of the command line */
void variables(void) {
  own = true;
  static const char *const n[] = {"STR", "INT", "FLG", "AI", "MS"}, *const set[] = {NULL, "-09x", "01yesno", "-,1x", "=,ab"}, *const arg[] = {"--str=a", "--int=4", "-g", "--ai=1-3", "--ms=a=b"}; int k = (int)sx_choose(5, "variable"), m = (int)sx_choose(Q(5, 6), "length"); char *v = set[k] ? vf_strset((size_t)m, set[k], "value") : vf_strn((size_t)m, "value"); vf_env(n[k], v); if (sx_choose(2, "second")) vf_env(n[(k + 1) % 5], S("1"));
  char *av[] = { "prog", sx_choose(2, "given") ? (char *)arg[k] : "--def=", "x", sx_choose(2, "bad") ? "3" : "y", NULL }; life(full(), 4, av);
}
/* in a command, and operands of the root before it */
void commands(void) { char *av[] = { "prog", "-sx", "-A", "c,b,c", "cmd", vf_strset(sx_choose(5, "length"), "-AN=,1", "argument"), vf_strset(sx_choose(3, "length"), "a=,1", "argument"), NULL }; life(full(), 7, av); }
/* operands that go on: strings and ordered numbers; more of them than the first capacity */
static int tail(char **av, int most, const char *set) {
  int c = 0; av[c++] = "prog"; bool num = sx_choose(2, "numbers"); int n = 1 + (int)sx_choose((uint64_t)most, "operands"); av[c++] = num ? "cmf" : "cmd"; int at = (int)sx_choose(3, "place"); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  for (int i = 0; i < n; i++) av[c++] = i == at ? vf_strset(sx_choose(4, "length"), num ? "1.-x" : set, "operand") : num ? S(i % 3 ? "2.5" : "1") : S(i % 3 ? "w" : "long operand"); av[c] = NULL; return c;
}
void operands(void) { char *av[30]; own = true; int c = tail(av, Q(13, 20), "a-=h"); life(full(), c, av); }
/* the same program parses again after freeing */
void again(void) {
  own = true;
  O *t = full(); static const int next[] = {0, 7, 13}; int k = (int)sx_choose(NVAL, "option"), j = (k + next[sx_choose(3, "option")]) % NVAL; argus_t a; vf_on_exit = released; vf_capture = vf_vague = 1; vf_regex_outcome = 1; base = sx_live();
  for (int r = 0; r < 2; r++) { int o = r ? j : k; char *v = o == 14 ? S("a") : vf_strset(2, val[o].set ? val[o].set : "ab", "value"); base = sx_live(); char *av[] = { "prog", vf_cat(val[o].n, v), NULL }; base = sx_live(); int st = go(&a, t, 2, av); if (st == 0) { look_all(&a, t); argus_free(&a); } CHECK(sx_live() == base, "after freeing nothing is left"); look_all(&a, t); }
}
void released1(void) { own = true; argv1(); }
void released2(void) { own = true; value1(); }
void released3(void) { own = true; commands(); }
/* equal elements that are dropped, in every kind of collection and in any order */
void dropped(void) {
  int k = (int)sx_choose(7, "kind"); own = true; uint64_t fl = k < 3 ? (sx_choose(2, "sorted") ? FLAG_SORTED : 0) | FLAG_UNIQUE : FLAG_UNIQUE_VALUE; if (k >= 3) { int s = (int)sx_choose(3, "sorted"); fl |= s == 1 ? FLAG_SORTED_KEY : s == 2 ? FLAG_SORTED_VALUE : 0; }
  O t[] = { HELP_OPTION(), OPTION_ARRAY_STRING('c', "coll", ENV_VAR("VAR")), OPTION_STRING('s', "str"), OPTION_END() }; O m[] = { OPTION_ARRAY_STRING('c', "coll", ENV_VAR("VAR")), OPTION_ARRAY_INT('c', "coll", ENV_VAR("VAR")), OPTION_ARRAY_FLOAT('c', "coll", ENV_VAR("VAR")), OPTION_MAP_STRING('c', "coll", ENV_VAR("VAR")), OPTION_MAP_INT('c', "coll", ENV_VAR("VAR")), OPTION_MAP_FLOAT('c', "coll", ENV_VAR("VAR")), OPTION_MAP_BOOL('c', "coll", ENV_VAR("VAR")) }; t[1] = m[k]; t[1].flags = (int)fl;
  int n = 2 + (int)sx_choose(Q(2, 3), "elements"), way = (int)sx_choose(4, "way"); char *v = S(""), *w = S(""); for (int i = 0; i < n; i++) { char *e = k < 3 ? vf_strset(1, "12", "element") : vf_cat(vf_strset(sx_choose(2, "length"), "ab", "key"), vf_cat("=", k == 3 ? vf_strset(sx_choose(2, "length"), "1", "value") : vf_strset(1, "01", "value"))); if (way != 1 || i < n / 2) v = vf_cat(v, vf_cat(*v ? "," : "", e)); else w = vf_cat(w, vf_cat(*w ? "," : "", e)); }
  char *av[6] = { "prog" }; int c = 1; if (way == 3) vf_env("VAR", v); else { av[c++] = vf_cat("-c", v); if (*w) av[c++] = vf_cat("-c", w); if (way == 2) av[c++] = "--nope"; } av[c] = NULL; life(TAB(t), c, av);
}
/* texts around the sizes of fixed buffers, wherever a text can stand */
static int act1(argus_t *a, void *d) { (void)a; (void)d; return 0; }
void long_texts(void) {
  static const int len[] = {1, 15, 16, 20, 21, 55, 56, 57, 62, 63, 64, 65, 110, 111, 120, 125, 126, 127, 128, 129, 240, 246, 250, 254, 255, 256, 257, 500, 505, 506, 510, 511, 512, 513, 1018, 1022, 1023, 1024, 1025}; int n = len[sx_choose(ARRLEN(len), "length")], k = (int)sx_choose(12, "place"), use = (int)sx_choose(5, "use"); char *x = vf_mem((size_t)n + 1); for (int i = 0; i < n; i++) x[i] = i % 40 == 39 ? ' ' : 'x'; if (k < 8) for (int i = 0; i < n; i++) x[i] = 'x'; char *c = vf_strn(1, "letter"); x[n / 2] = c[0]; x[n] = 0;
  regex_data_t r = { .pattern = "p", .hint = NULL }; r.pattern = x; validator_entry_t e = *V_REGEX(r), h = e, *l[] = { &e, NULL }, *m[] = { &e, &h, NULL }; regex_data_t rh = { .pattern = "p", .hint = x }; h.data.regex = rh;
  O leaf[] = { HELP_OPTION(), SUBCOMMAND("leaf", NULL), OPTION_END() }; O sub[] = { HELP_OPTION(), SUBCOMMAND("sub", leaf, HELP("h"), ACTION(act1)), OPTION_STRING('o', "opt", HELP("h")), OPTION_END() }; leaf[1] = (O)OPTION_END(); O t[] = { HELP_OPTION(), OPTION_STRING('s', "str", HELP("h")), OPTION_ARRAY_STRING('a', "arr", HELP("h")), OPTION_MAP_INT('m', "map", HELP("h")), POSITIONAL_STRING("pos", HELP("h"), FLAGS(FLAG_OPTIONAL)), SUBCOMMAND("cmd", sub, HELP("h")), SUBCOMMAND("two", leaf, HELP("h"), ACTION(act1)), OPTION_END() }; t[2].flags |= FLAG_AUTO_ENV; const char *prog = "prog"; argus_t a; const char *pre = "PRE";
  switch (k) { case 0: t[1].env_name = x; break; case 1: t[1].env_name = "VAR"; pre = x; break; case 2: t[2].name = t[2].lname = x; break; case 3: t[1].hint = t[2].hint = t[3].hint = x; break; case 4: t[1].validators = l; t[2].validators = l; break; case 5: t[2].validators = m; t[3].validators = m; break; case 6: t[5].name = x; break; case 7: sub[1].name = x; t[6].name = x; break; case 8: t[1].have_default = true; t[1].value.as_string = t[1].default_value.as_string = x; break; case 9: t[1].help = t[3].help = t[5].help = sub[1].help = x; break; case 10: prog = x; break; default: t[4].name = x; t[4].help = x; }
  vf_capture = vf_vague = 1; vf_on_exit = no_exit; vf_regex_outcome = 1; a = argus_init(t, prog, x); a.env_prefix = pre; a.description = x;
  switch (use) { case 0: argus_print_help(&a); argus_print_usage(&a); argus_print_version(&a); return; case 1: a.subcommand_depth = 0; (void)argus_exec(&a, NULL); return; case 2: { char *av[] = { (char *)prog, k == 6 ? x : "cmd", NULL }; if (argus_parse(&a, 2, av) == 0) { (void)argus_exec(&a, NULL); argus_print_help(&a); argus_free(&a); } return; } case 3: { char *av[] = { (char *)prog, "-s", x, "-a", x, vf_cat("-m", vf_cat(x, "=1")), x, NULL }; if (argus_parse(&a, 7, av) == 0) { look_all(&a, t); argus_free(&a); } return; } default: { char *av[] = { (char *)prog, vf_cat("--", x), x, NULL }; if (argus_parse(&a, 3, av) == 0) argus_free(&a); } }
}
/* ---- P03 */
static bool same_text(const char *a, const char *b) { return a && b ? vf_eq(a, b) : a == b; }
static bool same_value(argus_valtype_t t, argus_value_t a, argus_value_t b) { return t == VALUE_TYPE_STRING || t == VALUE_TYPE_ARRAY_STRING || t == VALUE_TYPE_VARIADIC_STRING || t == VALUE_TYPE_MAP_STRING ? same_text(a.as_string, b.as_string) : t == VALUE_TYPE_BOOL || t == VALUE_TYPE_FLAG || t == VALUE_TYPE_MAP_BOOL ? a.as_bool == b.as_bool : a.raw == b.raw; }
static void same(argus_t *x, argus_t *y, O *t) {
  for (O *o = t; o->type != TYPE_NONE; o++) {
    const char *n = o->name; if (!n || o->type == TYPE_GROUP || o->type == TYPE_SUBCOMMAND) continue; bool coll = o->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_VARIADIC | VALUE_TYPE_MAP); size_t c = argus_count(x, n);
    CHECK(argus_is_set(x, n) == argus_is_set(y, n) && c == argus_count(y, n), "a parse that succeeds without memory has the same result"); if (!coll) CHECK(same_value(o->value_type, argus_get(x, n), argus_get(y, n)), "a parse that succeeds without memory has the same result");
    if (o->value_type & VALUE_TYPE_MAP) { argus_map_it_t i = argus_map_it(x, n), j = argus_map_it(y, n); while (argus_map_next(&i)) { CHECK(argus_map_next(&j) && same_text(i.key, j.key) && same_value(o->value_type, i.value, j.value), "a parse that succeeds without memory has the same result"); } } else if (coll) for (size_t i = 0; i < c; i++) CHECK(same_value(o->value_type, argus_array_get(x, n, i), argus_array_get(y, n, i)), "a parse that succeeds without memory has the same result");
  }
  CHECK(x->subcommand_depth == y->subcommand_depth, "a parse that succeeds without memory has the same result"); if (x->subcommand_depth && t == x->options) same(x, y, x->subcommand_stack[0]->sub_options);
}
static void short_of(int c, char **av, int most) {
  O *t = full(), *u = full(); argus_t a, b; vf_capture = vf_vague = 1; vf_regex_outcome = 1; vf_on_exit = no_exit; base = sx_live(); vf_fail_at = 0; int st = go(&a, t, c, av); size_t mid = sx_live(); long k = (long)sx_choose((uint64_t)most, "failing allocation"); vf_alloc_count = 0; vf_alloc_failed = 0; vf_fail_at = k + 1; int su = go(&b, u, c, av); bool failed = vf_alloc_failed; 
  if (!failed) { vf_fail_at = 0; if (k) sx_end(); CHECK(su == st, "two parses of the same command line agree"); argus_free(&a); argus_free(&b); CHECK(sx_live() == base, "after freeing nothing is left"); sx_reach("never"); return; }
  CHECK(k + 1 < most, "every allocation is reached by some failure"); if (st) CHECK(su != 0, "what is rejected is rejected without memory too"); if (su) { sx_reach("reported"); CHECK(sx_live() == mid, "a parse that ran out of memory leaves nothing behind"); } vf_fail_at = 0;
  if (!su) { sx_reach("survived"); same(&a, &b, t); } look_all(&b, u); argus_free(&b); CHECK(sx_live() == mid, "after freeing nothing is left"); look_all(&b, u); argus_free(&a); CHECK(sx_live() == base, "after freeing nothing is left");
}
void oom_value(void) { int k = (int)sx_choose(NVAL, "option"); char *av[] = { "prog", vf_cat(val[k].n, any_of(k, Q(3, 4), "value")), NULL }; short_of(2, av, 24); }
void oom_twice(void) { int k = (int)sx_choose(NVAL, "option"); char *av[] = { "prog", vf_cat(val[k].n, any_of(k, 2, "value")), vf_cat(val[k].n, any_of(k, 2, "value")), NULL }; short_of(3, av, 30); }
void oom_growth(void) { /* past the first capacity */
  int k = (int)sx_choose(7, "option"); static const char *const n[] = {"--as=", "--ai=", "--af=", "--ms=", "--mi=", "--mf=", "--mb="}; static const char *const v[] = {"a,b,c,d,e,f,g,h,i,j", "1-6,9,8,11-12", "1,2,3,4,5,6,7,8,9,1", "a=1,b=2,c=3,d=4,e=5,f=6,g=7,h=8,i=9,j=0", "a=1,b=2,c=3,d=4,e=5,f=6,g=7,h=8,i=9,j=0", "a=1,b=2,c=3,d=4,e=5,f=6,g=7,h=8,i=9,j=0", "a=1,b=0,c=1,d=0,e=1,f=0,g=1,h=0,i=1,j=0"};
  char *av[] = { "prog", vf_cat(n[k], v[k]), "p", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", NULL }; short_of(sx_choose(2, "operands") ? 13 : 2, av, 70);
}
void oom_operands(void) { char *av[30]; int c = tail(av, Q(10, 12), "a-"); short_of(c, av, 60); }
void oom_variable(void) { static const char *const n[] = {"STR", "INT", "FLG", "AI", "MS"}, *const set[] = {"ab", "-09x", "01yesno", "-,1x", "=,ab"}; int k = (int)sx_choose(5, "variable"); vf_env(n[k], vf_strset((size_t)sx_choose(Q(4, 5), "length"), set[k], "value")); char *av[] = { "prog", "-A", "b,a", NULL }; short_of(3, av, 40); }
/* showing and structure checking without memory */
static int act(argus_t *a, void *d) { (void)a; (void)d; return 0; }
void oom_shown(void) {
  O *t = full(); argus_t a = argus_init(t, "prog", "1"); a.env_prefix = sx_choose(2, "prefix") ? "PRE" : NULL; vf_capture = vf_vague = 1; vf_on_exit = no_exit; base = sx_live(); (void)act;
  for (O *o = t; o->type != TYPE_NONE; o++) { if (o->type == TYPE_OPTION) o->help = "some help"; if (o->type == TYPE_OPTION && sx_choose(1, "x") == 0 && o->have_default == false && o->value_type == VALUE_TYPE_INT) { o->have_default = true; } }
  int what = (int)sx_choose(3, "what"); long k = (long)sx_choose(200, "failing allocation"); vf_alloc_count = 0; vf_alloc_failed = 0; vf_fail_at = k + 1; if (what == 0) argus_print_help(&a); else if (what == 1) argus_print_usage(&a); else (void)argus_exec(&a, NULL); bool failed = vf_alloc_failed; vf_fail_at = 0; CHECK(sx_live() == base, "showing help keeps nothing"); CHECK(!failed || k + 1 < 200, "every allocation is reached by some failure"); if (failed) sx_reach("short of memory"); else sx_reach("never");
}
