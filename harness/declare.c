/* The declaration macros: what is written is what is declared, whatever the values, in any order. */
#include "common.h"
#include "argus/regex.h"
#include <string.h>
static int h_own(argus_t *a, O *o, char *v) { (void)a; (void)o; (void)v; return 0; }
static int f_own(O *o) { (void)o; return 0; }
static int act_own(argus_t *a, void *d) { (void)a; (void)d; return 0; }
static int v_own(argus_t *a, void *p, validator_data_t d) { (void)a; (void)p; (void)d; return 0; }
static char *s_own(validator_data_t d) { (void)d; return NULL; }
#define AS "what is written in a declaration is what is declared"
typedef struct { const char *l, *h, *n; char *e; int f; char s; const char *r1, *r2, *c1; int64_t d; } w_t;
static w_t w; static validator_entry_t v1, v2;
/* everything given, and the same the other way round */
#define FORE HELP(w.h), HINT(w.n), FLAGS(w.f), ENV_VAR(w.e), DEFAULT(w.d), REQUIRE(w.r1, w.r2), CONFLICT(w.c1), VALIDATOR(&v1, &v2)
#define BACK VALIDATOR(&v1, &v2), CONFLICT(w.c1), REQUIRE(w.r1, w.r2), DEFAULT(w.d), ENV_VAR(w.e), FLAGS(w.f), HINT(w.n), HELP(w.h)
#define OWN HANDLER(h_own), HELP(w.h), FREE_HANDLER(f_own), HINT(w.n)
static void bare(const O *o, argus_optype_t type, argus_valtype_t vt, int flags) {
  CHECK(o->type == type && o->value_type == vt && (int)o->flags == flags, AS); CHECK(!o->help && !o->hint && !o->env_name && !o->require && !o->conflict && !o->validators && !o->have_default && !o->is_allocated && o->value.raw == 0 && o->value_count == 0 && o->value_capacity == 0 && !o->action && !o->sub_options, "what is not written is not declared"); CHECK(type == TYPE_GROUP || type == TYPE_SUBCOMMAND || o->handler, "an option knows how to read its value");
}
static void names(const O *o) { CHECK(o->sname == w.s && o->lname == w.l && o->name == w.l, AS); }
static void full(const O *o, argus_optype_t type, argus_valtype_t vt) {
  CHECK(o->type == type && o->value_type == vt && (int)o->flags == w.f && o->help == w.h && o->hint == w.n && o->env_name == w.e, AS); CHECK(o->have_default && o->value.as_int64 == w.d && o->default_value.as_int64 == w.d, "a default is declared as written"); CHECK(o->require && o->require[0] == w.r1 && o->require[1] == w.r2 && o->require[2] == NULL && o->conflict && o->conflict[0] == w.c1 && o->conflict[1] == NULL, AS); CHECK(o->validators && o->validators[0] == &v1 && o->validators[1] == &v2 && o->validators[2] == NULL, AS); CHECK(o->handler && !o->is_allocated && o->value_count == 0, AS);
}
static void owned(const O *o) { CHECK(o->handler == h_own && o->free_handler == f_own && o->help == w.h && o->hint == w.n, "an application's functions take the place of the library's"); }
static void setup(void) { static char t[6][4]; w.l = t[0]; w.h = t[1]; w.n = t[2]; w.e = t[3]; w.r1 = t[4]; w.r2 = t[5]; w.c1 = t[4]; w.s = (char)sx_var(8, "letter"); w.f = (int)sx_var(32, "flags"); w.d = (int64_t)sx_var(64, "default"); }
#define KIND(M, VT) { O b = M(w.s, w.l), f = M(w.s, w.l, FORE), k = M(w.s, w.l, BACK), o = M(w.s, w.l, OWN), h = M(w.s, w.l, HELP(w.h)); bare(&b, TYPE_OPTION, VT, 0); names(&b); full(&f, TYPE_OPTION, VT); names(&f); full(&k, TYPE_OPTION, VT); names(&k); owned(&o); names(&o); CHECK(h.help == w.h && h.handler == b.handler && h.free_handler == b.free_handler && f.handler == b.handler && k.free_handler == b.free_handler && b.handler != h_own, AS); O n = M('q', NULL); CHECK(n.name && vf_eq(n.name, "q") && n.sname == 'q' && !n.lname, "an option without a long name goes by its letter"); O z = M(0, "zz"); CHECK(vf_eq(z.name, "zz") && z.sname == 0, AS); sx_reach("kinds"); }
#define PLACE(M, VT) { O b = M(w.l), f = M(w.l, FORE), k = M(w.l, BACK), o = M(w.l, OWN); bare(&b, TYPE_POSITIONAL, VT, FLAG_REQUIRED); CHECK(b.name == w.l, AS); full(&f, TYPE_POSITIONAL, VT); full(&k, TYPE_POSITIONAL, VT); owned(&o); CHECK(f.name == w.l && k.name == w.l && o.name == w.l && (int)o.flags == FLAG_REQUIRED && f.handler == b.handler, AS); O p = M(w.l, FLAGS(FLAG_OPTIONAL)); CHECK(!(p.flags & FLAG_REQUIRED), "an operand may be declared optional"); sx_reach("kinds"); }
#define OPTION_OWN(s, l, ...) OPTION_BASE(s, l, VALUE_TYPE_CUSTOM, HANDLER(act_handler), ##__VA_ARGS__)
#define POSITIONAL_OWN(n, ...) POSITIONAL_BASE(n, VALUE_TYPE_CUSTOM, HANDLER(act_handler), ##__VA_ARGS__)
static int act_handler(argus_t *a, O *o, char *v) { (void)a; (void)o; (void)v; return 1; }
void kinds(void) {
  setup(); switch (sx_choose(22, "kind")) {
    case 0: KIND(OPTION_FLAG, VALUE_TYPE_FLAG) break; case 1: KIND(OPTION_BOOL, VALUE_TYPE_BOOL) break; case 2: KIND(OPTION_STRING, VALUE_TYPE_STRING) break; case 3: KIND(OPTION_INT, VALUE_TYPE_INT) break; case 4: KIND(OPTION_FLOAT, VALUE_TYPE_FLOAT) break;
    case 5: KIND(OPTION_ARRAY_STRING, VALUE_TYPE_ARRAY_STRING) break; case 6: KIND(OPTION_ARRAY_INT, VALUE_TYPE_ARRAY_INT) break; case 7: KIND(OPTION_ARRAY_FLOAT, VALUE_TYPE_ARRAY_FLOAT) break; case 8: KIND(OPTION_MAP_STRING, VALUE_TYPE_MAP_STRING) break; case 9: KIND(OPTION_MAP_INT, VALUE_TYPE_MAP_INT) break; case 10: KIND(OPTION_MAP_FLOAT, VALUE_TYPE_MAP_FLOAT) break; case 11: KIND(OPTION_MAP_BOOL, VALUE_TYPE_MAP_BOOL) break;
    case 12: PLACE(POSITIONAL_STRING, VALUE_TYPE_STRING) break; case 13: PLACE(POSITIONAL_INT, VALUE_TYPE_INT) break; case 14: PLACE(POSITIONAL_BOOL, VALUE_TYPE_BOOL) break; case 15: PLACE(POSITIONAL_FLOAT, VALUE_TYPE_FLOAT) break; case 16: PLACE(POSITIONAL_MANY_STRING, VALUE_TYPE_VARIADIC_STRING) break; case 17: PLACE(POSITIONAL_MANY_INT, VALUE_TYPE_VARIADIC_INT) break; case 18: PLACE(POSITIONAL_MANY_FLOAT, VALUE_TYPE_VARIADIC_FLOAT) break;
    case 19: KIND(OPTION_OWN, VALUE_TYPE_CUSTOM) break; case 20: PLACE(POSITIONAL_OWN, VALUE_TYPE_CUSTOM) break;
    default: {
      O sub[] = { OPTION_END() }, g = GROUP_START(w.l), gf = GROUP_START(w.l, FLAGS(w.f), HELP(w.h)), ge = GROUP_END(), c = SUBCOMMAND(w.l, sub), cf = SUBCOMMAND(w.l, sub, HELP(w.h), ACTION(act_own), FLAGS(w.f)), cb = SUBCOMMAND(w.l, sub, FLAGS(w.f), ACTION(act_own), HELP(w.h)), hh = HELP_OPTION(), vv = VERSION_OPTION(), end = OPTION_END(); ARGUS_OPTIONS(two, OPTION_FLAG('a', "aa"), OPTION_FLAG('b', "bb"),)
      bare(&g, TYPE_GROUP, VALUE_TYPE_NONE, 0); CHECK(g.name == w.l && gf.name == w.l && (int)gf.flags == w.f && gf.help == w.h && gf.type == TYPE_GROUP, AS); CHECK(ge.type == TYPE_GROUP && !ge.name, AS); CHECK(c.type == TYPE_SUBCOMMAND && c.name == w.l && c.sub_options == sub && !c.action && !c.help && !c.flags, AS); CHECK(cf.type == TYPE_SUBCOMMAND && cf.name == w.l && cf.sub_options == sub && cf.action == act_own && cf.help == w.h && (int)cf.flags == w.f, AS); CHECK(cb.type == TYPE_SUBCOMMAND && cb.name == w.l && cb.sub_options == sub && cb.action == act_own && cb.help == w.h && (int)cb.flags == w.f, AS);
      CHECK(hh.sname == 'h' && vf_eq(hh.lname, "help") && hh.flags == FLAG_EXIT && hh.help && hh.value_type == VALUE_TYPE_FLAG, AS); CHECK(vv.sname == 'V' && vf_eq(vv.lname, "version") && vv.flags == FLAG_EXIT && vv.help && vv.value_type == VALUE_TYPE_FLAG && vv.handler != hh.handler, AS); CHECK(end.type == TYPE_NONE, AS); CHECK(ARRLEN(two) == 3 && two[0].sname == 'a' && two[1].sname == 'b' && two[2].type == TYPE_NONE, "a table ends after its last entry"); sx_reach("others"); } } }
/* a default of any type keeps its value; the value is what the option holds before and after a parse that does not give it */
void defaults_kept(void) {
  int k = (int)sx_choose(12, "type"); uint64_t r = sx_var(64, "value"); static char text[4] = "abc"; O t[] = { HELP_OPTION(), OPTION_INT('i', "int"), OPTION_END() }; t[1] = (O)OPTION_INT('i', "int", DEFAULT((int64_t)r)); int64_t want = (int64_t)r; double d = 0; bool fl = false;
  switch (k) {
    case 0: break; case 1: t[1] = (O)OPTION_INT('i', "int", DEFAULT((int)r)); want = (int)r; break; case 2: t[1] = (O)OPTION_INT('i', "int", DEFAULT((unsigned)r)); want = (unsigned)r; break; case 3: t[1] = (O)OPTION_INT('i', "int", DEFAULT((short)r)); want = (short)r; break; case 4: t[1] = (O)OPTION_INT('i', "int", DEFAULT((uint8_t)r)); want = (uint8_t)r; break; case 5: t[1] = (O)OPTION_INT('i', "int", DEFAULT((int8_t)r)); want = (int8_t)r; break; case 6: t[1] = (O)OPTION_INT('i', "int", DEFAULT((long long)r)); break;
    case 7: d = sx_fvar("number"); sx_assume(d == d); t[1] = (O)OPTION_FLOAT('i', "int", DEFAULT(d)); fl = true; break; case 8: d = 0.1f; t[1] = (O)OPTION_FLOAT('i', "int", DEFAULT(0.1f)); fl = true; break; case 9: t[1] = (O)OPTION_BOOL('i', "int", DEFAULT((bool)(r & 1))); want = (int64_t)(r & 1); break; case 10: t[1] = (O)OPTION_STRING('i', "int", DEFAULT(text)); want = (int64_t)(intptr_t)text; break; default: { const char *c = text + 1; t[1] = (O)OPTION_STRING('i', "int", DEFAULT(c)); want = (int64_t)(intptr_t)c; } }
  for (int i = 0; i < 2; i++) { CHECK(t[1].have_default, AS); if (fl) CHECK(t[1].value.as_float == d && t[1].default_value.as_float == d, "a default is declared as written"); else if (k == 9) CHECK(t[1].value.as_bool == (bool)want && t[1].default_value.as_bool == (bool)want, "a default is declared as written"); else CHECK(t[1].value.as_int64 == want && t[1].default_value.as_int64 == want, "a default is declared as written"); argus_t a; char *av[] = { "prog", NULL }; CHECK(go(&a, t, 1, av) == 0, "a default stands for a value that is not given"); argus_value_t v = argus_get(&a, "int"); if (fl) CHECK(v.as_float == d, "a default is read as written"); else if (k == 9) CHECK(v.as_bool == (bool)want, "a default is read as written"); else CHECK(v.as_int64 == want, "a default is read as written"); argus_free(&a); }
}
/* limits keep what was written */
void limits_kept(void) {
  int64_t lo = (int64_t)sx_var(64, "low"), hi = (int64_t)sx_var(64, "high"), x = (int64_t)sx_var(64, "third"); uint64_t cu = sx_var(64, "data"); double f = sx_fvar("number"), g = sx_fvar("number"); sx_assume(f == f && g == g); char *s = vf_strn(1, "text"), *u = vf_strn(1, "text"); regex_data_t rx = { .pattern = s, .hint = u };
  validator_entry_t *r = V_RANGE(lo, hi), *l = V_LENGTH(lo, hi), *c = V_COUNT(lo, hi), *cs = V_CHOICE_STR(s, u), *cs1 = V_CHOICE_STR(u), *ci = V_CHOICE_INT(lo, x, hi), *cf = V_CHOICE_FLOAT(f, g), *re = V_REGEX(rx), *me = MAKE_VALIDATOR(v_own, s_own, _V_DATA_CUSTOM_(cu), ORDER_PRE), *mo = MAKE_VALIDATOR(v_own, NULL, _V_DATA_RANGE_(lo, hi), ORDER_POST);
  validator_entry_t *const rg[] = { r, l, c, mo }; for (int i = 0; i < 4; i++) CHECK(rg[i]->data.range.min == lo && rg[i]->data.range.max == hi && rg[i]->order == ORDER_POST && rg[i]->func, AS); for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) CHECK(rg[i]->func != rg[j]->func, "each limit is judged by its own function");
  CHECK(cs->data.choices.count == 2 && cs->data.choices.as_strings[0] == s && cs->data.choices.as_strings[1] == u && cs->order == ORDER_POST && cs->data.choices.type == VALUE_TYPE_STRING, AS); CHECK(cs1->data.choices.count == 1 && cs1->data.choices.as_strings[0] == u, AS); CHECK(ci->data.choices.count == 3 && ci->data.choices.as_ints[0] == lo && ci->data.choices.as_ints[1] == x && ci->data.choices.as_ints[2] == hi && ci->order == ORDER_POST && ci->data.choices.type == VALUE_TYPE_INT, AS); CHECK(cf->data.choices.count == 2 && cf->data.choices.as_floats[0] == f && cf->data.choices.as_floats[1] == g && cf->order == ORDER_POST && cf->data.choices.type == VALUE_TYPE_FLOAT, AS);
  CHECK(re->data.regex.pattern == s && re->data.regex.hint == u && re->order == ORDER_PRE, AS); CHECK(me->func == v_own && me->formatter == s_own && me->data.custom == cu && me->order == ORDER_PRE && mo->func == v_own && !mo->formatter, AS); CHECK(r->formatter && l->formatter && c->formatter && cs->formatter && ci->formatter && cf->formatter && re->formatter, AS); regex_data_t m = MAKE_REGEX(s, u); CHECK(m.pattern == s && m.hint == u, AS); sx_reach("kept");
}
/* flags mean different things, and optional means not required */
void flags_apart(void) {
  static const int f[] = { FLAG_REQUIRED, FLAG_HIDDEN, FLAG_ADVANCED, FLAG_DEPRECATED, FLAG_EXPERIMENTAL, FLAG_EXIT, FLAG_ENV_OVERRIDE, FLAG_AUTO_ENV, FLAG_NO_ENV_PREFIX, FLAG_SORTED, FLAG_UNIQUE, FLAG_SORTED_VALUE, FLAG_SORTED_KEY, FLAG_UNIQUE_VALUE, FLAG_EXCLUSIVE }; uint64_t i = sx_choose(ARRLEN(f), "flag"), j = sx_choose(ARRLEN(f), "flag"); CHECK(f[i] != 0 && (f[i] & (f[i] - 1)) == 0, "a flag is one bit"); if (i != j) CHECK((f[i] & f[j]) == 0, "flags do not share bits"); CHECK(FLAG_OPTIONAL == 0 && FLAG_NONE == 0, "optional is the absence of required");
  static const int t[] = { VALUE_TYPE_INT, VALUE_TYPE_STRING, VALUE_TYPE_FLOAT, VALUE_TYPE_BOOL, VALUE_TYPE_FLAG, VALUE_TYPE_ARRAY_STRING, VALUE_TYPE_ARRAY_INT, VALUE_TYPE_ARRAY_FLOAT, VALUE_TYPE_MAP_STRING, VALUE_TYPE_MAP_INT, VALUE_TYPE_MAP_FLOAT, VALUE_TYPE_MAP_BOOL, VALUE_TYPE_VARIADIC_STRING, VALUE_TYPE_VARIADIC_INT, VALUE_TYPE_VARIADIC_FLOAT, VALUE_TYPE_CUSTOM }; uint64_t a = sx_choose(ARRLEN(t), "type"), b = sx_choose(ARRLEN(t), "type"); CHECK(t[a] && (a == b || (t[a] & t[b]) == 0), "types are apart"); bool arr = a >= 5 && a < 8, map = a >= 8 && a < 12, var = a >= 12 && a < 15; CHECK(!!(t[a] & VALUE_TYPE_ARRAY) == arr && !!(t[a] & VALUE_TYPE_MAP) == map && !!(t[a] & VALUE_TYPE_VARIADIC) == var && !!(t[a] & VALUE_TYPE_PRIMITIVE) == (a < 4) && !!(t[a] & VALUE_TYPE_ANY_NUMERIC) == (a == 0 || a == 2) && !!(t[a] & VALUE_TYPE_ANY_BOOL) == (a == 3 || a == 4), "groups of types hold their types");
}
