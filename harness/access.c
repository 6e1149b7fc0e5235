/* Reading results; help and version. */
#include "common.h"
#include <stdio.h>
#include <string.h>
/* ---- P20 */
static O all[] = { OPTION_STRING('s', "s"), OPTION_INT('i', "in"), OPTION_FLOAT('f', "fl"), OPTION_BOOL('b', "bo"), OPTION_FLAG('g', "g"), OPTION_ARRAY_STRING('A', "as"), OPTION_ARRAY_INT('I', "ai"), OPTION_ARRAY_FLOAT('F', "af"), OPTION_MAP_STRING('M', "ms"), OPTION_MAP_INT('N', "mi"), OPTION_MAP_FLOAT('L', "mf"), OPTION_MAP_BOOL('B', "mb"), OPTION_STRING('u', "un"), OPTION_ARRAY_INT('U', "ua"), OPTION_MAP_INT('V', "um"), POSITIONAL_STRING("p"), POSITIONAL_MANY_INT("v", FLAGS(FLAG_OPTIONAL)), OPTION_END() };
enum { NALL = ARRLEN(all) - 1, ISA = 1, ISM = 2 };
static const struct { const char *n; int coll; size_t cnt; } what[NALL] = { {"s", 0, 1}, {"in", 0, 1}, {"fl", 0, 1}, {"bo", 0, 1}, {"g", 0, 1}, {"as", ISA, 3}, {"ai", ISA, 4}, {"af", ISA, 2}, {"ms", ISM, 2}, {"mi", ISM, 2}, {"mf", ISM, 1}, {"mb", ISM, 2}, {"un", 0, 0}, {"ua", ISA, 0}, {"um", ISM, 0}, {"p", 0, 1}, {"v", ISA, 3} };
static char *dup_state(O *o) { char *r = vf_mem(sizeof all); memcpy(r, o, sizeof all); return r; }
static void unchanged(O *o, const char *b) { bool same = true; for (size_t i = 0; i < sizeof all; i++) same &= ((const char *)o)[i] == b[i]; CHECK(same, "reading results changes nothing"); }
static char *txt, *dig; 
static int full(argus_t *a, O *o, bool given) {
  txt = vf_strn(2, "text"); dig = vf_strset(2, "0123456789", "digits"); for (int i = 0; i < 2; i++) sx_assume((txt[i] != ',') & (txt[i] != '='));
  if (!given) return GO(*a, o, S("op"));
  return GO(*a, o, S("-s"), txt, S("-i"), dig, S("-f2.5"), S("-byes"), S("-g"), S("-A"), vf_cat(vf_cat("x,", txt), ",z"), S("-I"), vf_cat("3-5,", dig), S("-F1.5,-2"), S("-M"), vf_cat("k=", vf_cat(txt, ",kk=w")), S("-N"), vf_cat("k=1,q=", dig), S("-Lk=0.5"), S("-Bk=on,q=off"), S("op"), S("7"), dig, S("9"));
}
static int which(const char *n) { for (int i = 0; i < NALL; i++) if (vf_eq(n, what[i].n)) return i; return -1; }
void get_any(void) {
  O *o = TAB(all); argus_t a; bool given = sx_choose(2, "given"); CHECK(full(&a, o, given) == 0, "well-formed values are accepted"); char *st = dup_state(o);
  char *n = vf_strmax(Q(3, 4), "name"); int k = which(n), ec = 5; a.error_code = 99; argus_value_t v = argus_get(&a, n); ec = a.error_code; bool set = argus_is_set(&a, n); size_t c = argus_count(&a, n); unchanged(o, st);
  for (char *q = n; *q; q++) sx_assume(*q != '.');
  if (k < 0) { sx_reach("absent"); CHECK(v.raw == 0 && ec == ARGUS_ERROR_NO_VALUE, "a name that is not declared reads as zero with its status"); CHECK(!set && c == 0, "a name that is not declared is not set"); return; }
  bool want = k == 15 || (given && what[k].cnt > 0); CHECK(ec == 0, "a declared name reads with success"); CHECK(set == want, "what was given is set and nothing else"); if (want) sx_reach("set"); else { sx_reach("unset"); CHECK(v.raw == 0, "an option without a value reads as zero"); }
  CHECK(c == (!want || (k == 15 && !given && 0) ? 0 : what[k].coll ? what[k].cnt : 1), "the count is the number of values given");
  if (!given) return; int64_t d = (dig[0] - '0') * 10 + dig[1] - '0';
  if (k == 0) CHECK(vf_eq(v.as_string, txt), "a text reads as given"); if (k == 1) CHECK(v.as_int64 == d && v.as_int == (int)d, "an integer reads as given"); if (k == 2) CHECK(v.as_float == 2.5, "a number reads as given"); if (k == 3 || k == 4) CHECK(v.as_bool, "a truth value reads as given"); if (k == 15) CHECK(vf_eq(v.as_string, "op"), "an operand reads as given");
}
void index_any(void) {
  O *o = TAB(all); argus_t a; bool given = sx_choose(2, "given"); CHECK(full(&a, o, given) == 0, "well-formed values are accepted"); char *st = dup_state(o);
  int k = (int)sx_choose(NALL + 1, "option"); const char *n = k == NALL ? "nope" : what[k].n; size_t i = sx_var(64, "index"), cnt = k < NALL && given ? what[k].cnt : 0; a.error_code = 99; argus_value_t v = argus_array_get(&a, n, i); int ec = a.error_code; unchanged(o, st);
  if (k == NALL) { CHECK(ec == ARGUS_ERROR_NO_VALUE && v.raw == 0, "an undeclared name reads as zero with its status"); return; }
  if (what[k].coll != ISA) { CHECK(ec == ARGUS_ERROR_INVALID_TYPE && v.raw == 0, "what is not a list reads as zero with its status"); return; }
  if (i >= cnt) { sx_reach("beyond"); CHECK(ec == ARGUS_ERROR_INVALID_INDEX && v.raw == 0, "an index beyond the list reads as zero with its status"); return; }
  sx_reach("within"); CHECK(ec == 0, "an index within the list reads with success"); i = sx_conc(i); int64_t d = (dig[0] - '0') * 10 + dig[1] - '0';
  if (k == 5) CHECK(vf_eq(v.as_string, i == 0 ? "x" : i == 1 ? txt : "z"), "each index reads its element"); if (k == 6) CHECK(v.as_int64 == (i < 3 ? (int64_t)i + 3 : d), "each index reads its element"); if (k == 7) CHECK(v.as_float == (i ? -2.0 : 1.5), "each index reads its element"); if (k == 16) CHECK(v.as_int64 == (i == 0 ? 7 : i == 1 ? d : 9), "each index reads its element");
}
void key_any(void) {
  O *o = TAB(all); argus_t a; bool given = sx_choose(2, "given"); CHECK(full(&a, o, given) == 0, "well-formed values are accepted"); char *st = dup_state(o);
  int k = (int)sx_choose(NALL + 1, "option"); const char *n = k == NALL ? "nope" : what[k].n; char *key = vf_strmax(Q(3, 4), "key"); a.error_code = 99; argus_value_t v = argus_map_get(&a, n, key); int ec = a.error_code; unchanged(o, st); int64_t d = (dig[0] - '0') * 10 + dig[1] - '0';
  if (k == NALL) { CHECK(ec == ARGUS_ERROR_NO_VALUE && v.raw == 0, "an undeclared name reads as zero with its status"); return; }
  if (what[k].coll != ISM) { CHECK(ec == ARGUS_ERROR_INVALID_TYPE && v.raw == 0, "what is not a map reads as zero with its status"); return; }
  bool f = given && k != 14 && vf_eq(key, "k"), s = given && (k == 8 ? vf_eq(key, "kk") : (k == 9 || k == 11) && vf_eq(key, "q"));
  if (!f && !s) { sx_reach("absent"); CHECK(ec == ARGUS_ERROR_INVALID_KEY && v.raw == 0, "a key that is not in the map reads as zero with its status"); return; }
  sx_reach("present"); CHECK(ec == 0, "a key of the map reads with success");
  if (k == 8) CHECK(vf_eq(v.as_string, f ? txt : "w"), "each key reads its value"); if (k == 9) CHECK(v.as_int64 == (f ? 1 : d), "each key reads its value"); if (k == 10) CHECK(v.as_float == 0.5, "each key reads its value"); if (k == 11) CHECK(v.as_bool == f, "each key reads its value");
}
void walk(void) {
  O *o = TAB(all); argus_t a; bool given = sx_choose(2, "given"); CHECK(full(&a, o, given) == 0, "well-formed values are accepted"); char *st = dup_state(o); int k = (int)sx_choose(NALL + 1, "option"); const char *n = k == NALL ? "nope" : what[k].n; size_t stop = sx_choose(6, "restart after"), cnt = k < NALL && given ? what[k].cnt : 0;
  argus_array_it_t it = argus_array_it(&a, n), two = argus_array_it(&a, n); argus_map_it_t mt = argus_map_it(&a, n); size_t na = k < NALL && what[k].coll == ISA ? cnt : 0, nm = k < NALL && what[k].coll == ISM ? cnt : 0;
  for (size_t i = 0; i < stop; i++) { CHECK(argus_array_next(&it) == (i < na), "an iterator ends after the last element"); CHECK(argus_map_next(&mt) == (i < nm), "an iterator ends after the last element"); }
  argus_array_reset(&it); argus_map_reset(&mt);
  for (size_t i = 0; i < na; i++) { CHECK(argus_array_next(&it), "an iterator visits every element"); CHECK(it.value.raw == argus_array_get(&a, n, i).raw, "an iterator agrees with indexed reading"); if (i == 1) { CHECK(argus_array_next(&two), "iterators are independent"); CHECK(two.value.raw == argus_array_get(&a, n, 0).raw, "iterators are independent"); } }
  for (size_t i = 0; i < nm; i++) { CHECK(argus_map_next(&mt), "an iterator visits every element"); CHECK(mt.value.raw == argus_map_get(&a, n, mt.key).raw, "an iterator agrees with keyed reading"); for (size_t j = 0; j < i; j++) CHECK(!vf_eq(mt.key, o[k].value.as_map[j].key), "an iterator visits every key once"); }
  for (int i = 0; i < 2; i++) { CHECK(!argus_array_next(&it), "an iterator ends after the last element"); CHECK(!argus_map_next(&mt), "an iterator ends after the last element"); }
  CHECK(!argus_array_next(NULL) && !argus_map_next(NULL), "no iterator, no element"); argus_array_reset(NULL); argus_map_reset(NULL); unchanged(o, st); if (na + nm) sx_reach("visited");
}
/* ---- P21 */
static size_t base; static const char *want_out, *want_not; static int ended; static bool may;
static void stopped(int code) {
  ended++; CHECK(may, "only help and version end the program"); CHECK(code == 0, "help and version end the program with success"); CHECK(sx_live() == base, "everything is released before the program ends"); CHECK(vf_outlen[1] == 0, "help and version report no error"); CHECK(vf_outlen[0] > 0 && printed(0, want_out), "the text asked for is printed on the output"); if (want_not) CHECK(!printed(0, want_not), "only the text asked for is printed"); sx_reach("stopped");
}
static void ended_plain(int code) { CHECK(code == 0, "an option that ends the program ends it with success"); CHECK(sx_live() == base, "everything is released before the program ends"); CHECK(silent(), "without a request nothing is printed"); sx_reach("stopped"); }
/* something before, the request, anything after */
void stops(void) {
  vf_capture = 1; ended = 0; want_not = NULL; vf_on_exit = stopped; argus_t a; int before = (int)sx_choose(7, "before"), lvl = (int)sx_choose(3, "level"), ver = (int)sx_choose(2, "version"), form = (int)sx_choose(3, "form"); char *tail = vf_strmax(Q(3, 5), "after"); bool more = sx_choose(2, "more");
  O deep[] = { VERSION_OPTION(), OPTION_STRING('d', "deepreq", FLAGS(FLAG_REQUIRED)), HELP_OPTION(), POSITIONAL_STRING("deeppos"), OPTION_FLAG('q', "qq"), OPTION_END() };
  O cmd[] = { HELP_OPTION(), OPTION_STRING('c', "cmdreq", FLAGS(FLAG_REQUIRED)), VERSION_OPTION(), SUBCOMMAND("deep", deep), OPTION_FLAG('q', "qq"), OPTION_ARRAY_STRING('l', "ll"), POSITIONAL_STRING("cmdpos"), OPTION_END() };
  O t[] = { OPTION_STRING('r', "rootreq", FLAGS(FLAG_REQUIRED)), OPTION_FLAG('q', "qq"), HELP_OPTION(), VERSION_OPTION(), SUBCOMMAND("cmd", cmd), OPTION_ARRAY_STRING('l', "ll"), OPTION_MAP_STRING('m', "mm"), OPTION_INT('i', "num", ENV_VAR("NUM")), OPTION_END() };
  char *av[16]; int c = 0, err = 0; bool pre = true; av[c++] = "prog"; vf_env("NUM", S("bad")); may = true;
  switch (before) { case 1: av[c++] = S("-q"); break; case 2: av[c++] = S("-l"); av[c++] = S("a,b"); av[c++] = S("-lc"); break; case 3: av[c++] = S("-mk=v"); break; case 4: av[c++] = S("--nope"); err = ARGUS_ERROR_INVALID_ARGUMENT; break; case 5: av[c++] = S("-i"); av[c++] = S("x"); err = ARGUS_ERROR_INVALID_FORMAT; break; case 6: av[c++] = S("-r"); av[c++] = S("--help"); break; default: pre = false; } (void)pre;
  if (lvl > 0) { av[c++] = S("cmd"); if (before == 2) av[c++] = S("-lx"); } if (lvl > 1) av[c++] = S("deep");
  av[c++] = form == 0 ? (ver ? S("--version") : S("--help")) : form == 1 ? (ver ? S("-V") : S("-h")) : ver ? S("-qV") : S("-qh"); av[c++] = tail; if (more) av[c++] = S("--nope"); av[c] = 0;
  want_out = ver ? "prog v1" : lvl == 0 ? "--rootreq" : lvl == 1 ? "--cmdreq" : "--deepreq"; want_not = ver ? "--" : lvl == 0 ? "--cmdreq" : "--rootreq"; base = sx_live(); if (err) may = false;
  int st = go(&a, t, c, av); CHECK(err != 0, "help and version always end the program"); sx_reach("error first"); CHECK(st == err, "an error that comes earlier wins"); CHECK(!printed(0, "--rootreq") && !printed(0, "prog v1"), "an error that comes earlier wins");
}
/* at any depth, in any bundle */
void stops_deep(void) {
  vf_capture = 1; ended = 0; want_not = NULL; vf_on_exit = stopped; may = true; argus_t a; int n = (int)sx_choose(Q(6, 11), "levels"), ver = (int)sx_choose(2, "version"), form = (int)sx_choose(8, "form"), tail = (int)sx_choose(5, "after"); O *lv[12]; char *av[32], *nm[12], *dd[12]; int c = 0; av[c++] = "prog";
  for (int k = n; k >= 0; k--) { char q[4] = { 'r', 'q', (char)('A' + k), 0 }; nm[k] = S(q); dd[k] = vf_cat("--", nm[k]); O t[] = { OPTION_STRING('r', NULL, FLAGS(FLAG_REQUIRED)), HELP_OPTION(), OPTION_FLAG('q', "qq"), SUBCOMMAND("go", NULL), VERSION_OPTION(), OPTION_INT('i', "ii"), OPTION_ARRAY_STRING('l', "ll"), OPTION_END() }; t[0].name = t[0].lname = nm[k]; if (k < n) t[3].sub_options = lv[k + 1]; else t[3] = (O)POSITIONAL_STRING("must"); lv[k] = TAB(t); }
  for (int k = 0; k < n; k++) { if (k == 1) av[c++] = S("-la,b"); av[c++] = S("go"); }
  static const char *const ask[2][8] = { {"--help", "-h", "-qh", "-hq", "-hr", "-hV", "-qhx", "-hi9x"}, {"--version", "-V", "-qV", "-Vq", "-Vr", "-Vh", "-qVx", "-Vi9x"} }; av[c++] = S(ask[ver][form]); static const char *const aft[] = {"--nope", "-h", "-V", "-i", "--"}; if (tail < 5) av[c++] = S(aft[tail]); av[c] = 0; if (sx_choose(2, "nothing after") && tail == 0) av[--c] = 0;
  want_out = ver ? "prog v1" : dd[n]; want_not = ver ? "--" : n ? dd[0] : NULL; base = sx_live(); (void)go(&a, lv[0], c, av); CHECK(false, "help and version always end the program");
}
/* text that only looks like a request is not one */
void not_asked(void) {
  vf_capture = 1; ended = 0; vf_on_exit = no_exit; argus_t a; int how = (int)sx_choose(6, "how"); bool ver = sx_choose(2, "version"); char *h = ver ? (how & 1 ? S("-V") : S("--version")) : (how & 1 ? S("-h") : S("--help"));
  O t[] = { HELP_OPTION(), VERSION_OPTION(), OPTION_STRING('s', "ss"), OPTION_ARRAY_STRING('l', "ll"), POSITIONAL_MANY_STRING("pp", FLAGS(FLAG_OPTIONAL)), OPTION_END() }; int st; base = sx_live();
  switch (how) { case 0: case 1: st = GO(a, t, S("-s"), h); CHECK(st == 0 && vf_eq(argus_get(&a, "ss").as_string, h), "a request given as a value is a value"); break; case 2: case 3: st = GO(a, t, S("--"), h); CHECK(st == 0 && vf_eq(argus_array_get(&a, "pp", 0).as_string, h), "a request after the separator is an operand"); break; case 4: st = GO(a, t, vf_cat("--ss=", h)); CHECK(st == 0, "a request given as a value is a value"); break; default: st = GO(a, t, vf_cat("-s", h)); CHECK(st == 0, "a request given as a value is a value"); }
  CHECK(silent(), "without a request nothing is printed"); argus_free(&a);
}
/* a program without these options does not know them */
void not_declared(void) {
  vf_on_exit = no_exit; argus_t a; char *w = sx_choose(2, "long") ? (sx_choose(2, "version") ? S("--version") : S("--help")) : (sx_choose(2, "version") ? S("-V") : S("-h")); O s[] = { HELP_OPTION(), VERSION_OPTION(), OPTION_END() }, t[] = { OPTION_FLAG('q', "qq"), SUBCOMMAND("cmd", s), OPTION_END() };
  CHECK(GO(a, t, w) == ARGUS_ERROR_INVALID_ARGUMENT, "help and version exist only where declared");
}
/* an application's own handler may ask to stop as well */
static int h_stop(argus_t *a, O *o, char *v) { (void)a; (void)o; (void)v; printf("custom stop"); return ARGUS_SUCCESS; }
void own_stop(void) {
  vf_capture = 1; vf_on_exit = stopped; may = true; argus_t a; char *tail = vf_strmax(2, "after"); O t[] = { OPTION_STRING('r', "rr", FLAGS(FLAG_REQUIRED)), OPTION_FLAG('x', "list-all", HANDLER(h_stop), FLAGS(FLAG_EXIT)), OPTION_ARRAY_INT('l', "ll"), OPTION_END() };
  want_out = "custom stop"; want_not = NULL; base = sx_live() + 0; char *av[] = { "prog", S("-l"), S("1-3"), S("--list-all"), tail, NULL }; base = sx_live(); (void)go(&a, t, 5, av); CHECK(false, "an option that ends the program ends it");
}
/* so may an option that takes a value, an operand, or one below a command */
static int h_show(argus_t *a, O *o, char *v) { (void)a; (void)o; if (v) printf("custom %s", v); else printf("custom stop"); return ARGUS_SUCCESS; }
void own_value(void) {
  vf_capture = 1; vf_on_exit = stopped; may = true; argus_t a; int kind = (int)sx_choose(6, "kind"), form = (int)sx_choose(4, "form"), depth = (int)sx_choose(3, "level"); char *v = vf_strn(1, "value"), *av[12], *tail = vf_strmax(1, "after"); int c = 0; bool plain = kind < 2; av[c++] = "prog";
  O o = kind == 0 ? (O)OPTION_STRING('x', "list", HANDLER(h_show), FLAGS(FLAG_EXIT)) : kind == 1 ? (O)OPTION_INT('x', "list", HANDLER(h_show), FLAGS(FLAG_EXIT | FLAG_HIDDEN)) : kind == 2 ? (O)OPTION_STRING('x', "list", FLAGS(FLAG_EXIT)) : kind == 3 ? (O)OPTION_ARRAY_STRING('x', "list", FLAGS(FLAG_EXIT)) : kind == 4 ? (O)OPTION_MAP_INT('x', "list", FLAGS(FLAG_EXIT)) : (O)OPTION_INT('x', "list", FLAGS(FLAG_EXIT)); if (kind == 5) v = vf_strset(1, "0123456789", "value"); char *w = kind == 4 ? S("k=1") : v;
  O *lv[3]; for (int k = 2; k >= 0; k--) { O t[] = { OPTION_STRING('r', "req", FLAGS(FLAG_REQUIRED)), OPTION_FLAG('q', "qq"), SUBCOMMAND("go", NULL), OPTION_END(), OPTION_END() }; if (k == depth) { t[2] = o; } else if (k < depth) t[2].sub_options = lv[k + 1]; else t[2] = (O)OPTION_END(); lv[k] = TAB(t); }
  for (int k = 0; k < depth; k++) av[c++] = S("go"); switch (form) { case 0: av[c++] = vf_cat("--list=", w); break; case 1: av[c++] = S("--list"); av[c++] = w; break; case 2: av[c++] = S("-x"); av[c++] = w; break; default: av[c++] = vf_cat("-qx", w); } av[c++] = tail; av[c] = 0; want_out = plain ? vf_cat("custom ", v) : ""; want_not = NULL; if (!plain) { vf_on_exit = ended_plain; } base = sx_live(); (void)go(&a, lv[0], c, av); CHECK(false, "an option that ends the program ends it");
}
