/* Parsing reads what it is given and changes only its results; parsers do not meet. */
#include "memory.c"
extern int vf_regex_real;
#define INTACT "what was declared stays as declared"
static bool declared(const O *a, const O *b) {
  return a->type == b->type && a->name == b->name && a->sname == b->sname && a->lname == b->lname && a->help == b->help && a->hint == b->hint && a->value_type == b->value_type && a->default_value.raw == b->default_value.raw && a->have_default == b->have_default && a->env_name == b->env_name && a->handler == b->handler && a->free_handler == b->free_handler && a->validators == b->validators
    && a->conflict == b->conflict && a->require == b->require && a->flags == b->flags && a->action == b->action && a->sub_options == b->sub_options && a->line == b->line && a->file == b->file;
}
static size_t entries(const O *t) { size_t n = 0; while (t[n].type != TYPE_NONE) n++; return n + 1; }
/* a table and everything it points to */
typedef struct { O *t, *was; validator_entry_t v[7]; O *sub[4], *subwas[4]; int subs; } kept_t;
static validator_entry_t *const vals[7] = { &vr, &vlen, &vcnt, &vcs, &vci, &vcf, &vre };
static void keep(kept_t *k, O *t) { k->t = t; k->was = tab_(t, entries(t)); k->subs = 0; for (int i = 0; i < 7; i++) k->v[i] = *vals[i]; for (O *o = t; o->type != TYPE_NONE; o++) if (o->sub_options) { k->sub[k->subs] = o->sub_options; k->subwas[k->subs++] = tab_(o->sub_options, entries(o->sub_options)); } }
static void intact(kept_t *k) {
  for (size_t i = 0, n = entries(k->was); i < n; i++) CHECK(declared(&k->t[i], &k->was[i]), INTACT);
  for (int s = 0; s < k->subs; s++) for (size_t i = 0, n = entries(k->subwas[s]); i < n; i++) CHECK(declared(&k->sub[s][i], &k->subwas[s][i]), INTACT);
  for (int i = 0; i < 7; i++) { validator_entry_t *a = vals[i], *b = &k->v[i]; CHECK(a->func == b->func && a->order == b->order && a->formatter == b->formatter, INTACT); } CHECK(vr.data.range.min == k->v[0].data.range.min && vr.data.range.max == k->v[0].data.range.max && vlen.data.range.min == k->v[1].data.range.min && vlen.data.range.max == k->v[1].data.range.max && vcnt.data.range.min == k->v[2].data.range.min && vcnt.data.range.max == k->v[2].data.range.max && vre.data.regex.pattern == k->v[6].data.regex.pattern && vre.data.regex.hint == k->v[6].data.regex.hint, INTACT);
  for (int i = 3; i < 6; i++) CHECK(vals[i]->data.choices.count == k->v[i].data.choices.count && vals[i]->data.choices.as_strings == k->v[i].data.choices.as_strings, INTACT);
  CHECK(ci[0] == 1 && ci[1] == 22 && ci[2] == -3 && cf[0] == 0.5 && cf[1] == 2.0 && vf_eq(cs[0], "a") && vf_eq(cs[1], "bb") && vf_eq(cs[2], "-"), INTACT);
}
/* the arguments and the environment */
typedef struct { int c; char **av, *at[32], *copy[32]; const char *env[16], *envcopy[16]; } given_t;
extern const char *vf_envv[16]; extern int vf_envc;
static void given(given_t *g, int c, char **av) { g->c = c; g->av = av; for (int i = 0; i <= c; i++) { g->at[i] = av[i]; g->copy[i] = av[i] ? vf_cat(av[i], "") : NULL; } for (int i = 0; i < vf_envc; i++) { g->env[i] = vf_envv[i]; g->envcopy[i] = vf_cat(vf_envv[i], ""); } }
static void untouched(given_t *g) {
  for (int i = 0; i <= g->c; i++) { CHECK(g->av[i] == g->at[i], "the argument vector keeps its order"); if (g->copy[i]) { bool s = true; for (size_t k = 0, n = vf_len(g->copy[i]); k <= n; k++) s &= g->av[i][k] == g->copy[i][k]; CHECK(s, "the arguments keep their text"); } }
  for (int i = 0; i < vf_envc; i++) { bool s = true; for (size_t k = 0, n = vf_len(g->envcopy[i]); k <= n; k++) s &= g->env[i][k] == g->envcopy[i][k]; CHECK(s, "the environment keeps its text"); }
}
static void context(argus_t *a, argus_t *b) { CHECK(a->program_name == b->program_name && a->version == b->version && a->description == b->description && a->env_prefix == b->env_prefix && a->options == b->options && a->helper.config.max_line_width == b->helper.config.max_line_width && a->helper.config.description_column == b->helper.config.description_column && a->helper.config.option_indent == b->helper.config.option_indent && a->helper.config.smart_hint_max_length == b->helper.config.smart_hint_max_length && a->helper.config.smart_hint_allow_spaces == b->helper.config.smart_hint_allow_spaces, "the parser keeps its settings"); }
static kept_t now; static given_t line_; static argus_t ctx; static argus_t *actx;
static void all_intact(void) { intact(&now); untouched(&line_); context(actx, &ctx); }
static void ended(int code) { CHECK(code == 0, "only help and version end the program"); all_intact(); sx_reach("ended"); }
static void leaves(int c, char **av) {
  O *t = full(); keep(&now, t); given(&line_, c, av); vf_on_exit = ended; vf_capture = vf_vague = 1; vf_regex_real = 1; argus_t a = argus_init(t, "prog", "1"); a.description = "d"; ctx = a; actx = &a; all_intact(); int st = argus_parse(&a, c, av); all_intact(); if (st == 0) sx_reach("accepted"); else sx_reach("rejected");
  if (st == 0) { look_all(&a, t); all_intact(); switch (sx_choose(3, "use")) { case 0: argus_print_help(&a); argus_print_usage(&a); argus_print_version(&a); break; case 1: (void)argus_exec(&a, NULL); break; default: ; } all_intact(); argus_free(&a); all_intact(); }
}
void leaves_value(void) { int k = (int)sx_choose(NVAL, "option"); char *av[] = { "prog", vf_cat(val[k].n, any_of(k, val[k].max, "value")), "p", NULL }; leaves(3, av); }
void leaves_next(void) { int k = (int)sx_choose(NVAL, "option"); char *n = vf_cat(val[k].n, ""); n[vf_len(n) - 1] = 0; char *av[] = { "prog", n, any_of(k, 3, "value"), "--str=s", NULL }; leaves(4, av); }
void leaves_any(void) { char *av[] = { "prog", vf_strmax(Q(4, 5), "argument"), vf_strmax(Q(2, 2), "argument"), NULL }; leaves(3, av); }
void leaves_command(void) { char *av[] = { "prog", "-sx", "cmd", vf_strset(sx_choose(5, "length"), "-AN=,1", "argument"), vf_strset(sx_choose(3, "length"), "a=,1", "argument"), "last", NULL }; leaves(6, av); }
void leaves_operands(void) { char *av[30]; int c = tail(av, 10, "a-="); leaves(c, av); }
void leaves_variable(void) {
  static const char *const n[] = {"STR", "INT", "FLG", "AI", "MS"}, *const set[] = {NULL, "-09x", "01yesno", "-,1x", "=,ab"}; int k = (int)sx_choose(5, "variable"), m = (int)sx_choose(5, "length"); char *v = set[k] ? vf_strset((size_t)m, set[k], "value") : vf_strn((size_t)m, "value"); vf_env(n[k], v); char *av[] = { "prog", "--def=x", "x", NULL }; leaves(3, av);
}
/* two parsers: each gives what it gives alone */
#define ALONE "two parsers do not influence each other"
static void alike(argus_t *x, argus_t *y, O *t) {
  for (O *o = t; o->type != TYPE_NONE; o++) {
    const char *n = o->name; if (!n || o->type == TYPE_GROUP || o->type == TYPE_SUBCOMMAND) continue; bool coll = o->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_VARIADIC | VALUE_TYPE_MAP); size_t c = argus_count(x, n);
    CHECK(argus_is_set(x, n) == argus_is_set(y, n) && c == argus_count(y, n), ALONE); if (!coll) CHECK(same_value(o->value_type, argus_get(x, n), argus_get(y, n)), ALONE);
    if (o->value_type & VALUE_TYPE_MAP) { argus_map_it_t i = argus_map_it(x, n), j = argus_map_it(y, n); while (argus_map_next(&i)) { CHECK(argus_map_next(&j) && same_text(i.key, j.key) && same_value(o->value_type, i.value, j.value), ALONE); } } else if (coll) { argus_array_it_t i = argus_array_it(x, n), j = argus_array_it(y, n); while (argus_array_next(&i)) CHECK(argus_array_next(&j) && same_value(o->value_type, i.value, j.value), ALONE); }
  }
  CHECK(x->subcommand_depth == y->subcommand_depth, ALONE); if (x->subcommand_depth && t == x->options) { CHECK(vf_eq(x->subcommand_stack[0]->name, y->subcommand_stack[0]->name), ALONE); alike(x, y, x->subcommand_stack[0]->sub_options); }
}
static void unlike_end(int code) { CHECK(code == 0, "only help and version end the program"); }
static const char *const coll_of[] = {"as", "ai", "af", "ms", "mi", "mf", "mb"};
static void pair(int ca, char **av, int cb, char **bv) {
  vf_on_exit = unlike_end; vf_capture = vf_vague = 1; vf_regex_real = 1; O *tr = full(), *ts = full(), *ta = full(), *tb = full(); argus_t r, s, a, b; int sr = go(&r, tr, ca, av), ss = go(&s, ts, cb, bv), sa, sb; int order = (int)sx_choose(3, "order");
  if (order == 0) { a = argus_init(ta, "prog", "1"); b = argus_init(tb, "prog", "1"); sa = argus_parse(&a, ca, av); sb = argus_parse(&b, cb, bv); CHECK(a.error_code == sr && b.error_code == ss, ALONE); } else if (order == 1) { a = argus_init(ta, "prog", "1"); sa = argus_parse(&a, ca, av); b = argus_init(tb, "prog", "1"); sb = argus_parse(&b, cb, bv); }
  else { /* while what the first one read is walked through */
    a = argus_init(ta, "prog", "1"); sa = argus_parse(&a, ca, av); argus_array_it_t it[3], jt[3]; argus_map_it_t mt[4], nt[4]; size_t got[7] = {0};
    if (sa == 0 && sr == 0) { for (int i = 0; i < 3; i++) { it[i] = argus_array_it(&a, coll_of[i]); jt[i] = argus_array_it(&r, coll_of[i]); if (argus_array_next(&it[i])) { got[i]++; (void)argus_array_next(&jt[i]); } } for (int i = 0; i < 4; i++) { mt[i] = argus_map_it(&a, coll_of[i + 3]); nt[i] = argus_map_it(&r, coll_of[i + 3]); if (argus_map_next(&mt[i])) { got[i + 3]++; (void)argus_map_next(&nt[i]); } } }
    b = argus_init(tb, "prog", "1"); sb = argus_parse(&b, cb, bv); CHECK(b.error_code == ss && a.error_code == sr, ALONE); if (sb == 0) look_all(&b, tb);
    if (sa == 0 && sr == 0) { for (int i = 0; i < 3; i++) { while (argus_array_next(&it[i])) { got[i]++; CHECK(argus_array_next(&jt[i]) && (i ? it[i].value.raw == jt[i].value.raw : same_text(it[i].value.as_string, jt[i].value.as_string)), ALONE); } CHECK(got[i] == argus_count(&r, coll_of[i]), ALONE); } for (int i = 0; i < 4; i++) { while (argus_map_next(&mt[i])) { got[i + 3]++; CHECK(argus_map_next(&nt[i]) && same_text(mt[i].key, nt[i].key), ALONE); } CHECK(got[i + 3] == argus_count(&r, coll_of[i + 3]), ALONE); } }
  }
  CHECK(sa == sr && sb == ss, ALONE); if (sa == 0) { sx_reach("first accepted"); alike(&a, &r, ta); } if (sb == 0) { sx_reach("second accepted"); alike(&b, &s, tb); }
  if (sx_choose(2, "freed first")) { if (sb == 0) argus_free(&b); if (sa == 0) { alike(&a, &r, ta); argus_free(&a); } } else { if (sa == 0) argus_free(&a); if (sb == 0) { alike(&b, &s, tb); argus_free(&b); } } if (sr == 0) argus_free(&r); if (ss == 0) argus_free(&s);
}
void two_values(void) { static const int next[] = {0, 4, 7, 13}; int k = (int)sx_choose(NVAL, "option"), j = (k + next[sx_choose(ARRLEN(next), "option")]) % NVAL; char *av[] = { "prog", vf_cat(val[k].n, any_of(k, Q(1, 2), "value")), "--str=s", NULL }, *bv[] = { "prog", vf_cat(val[j].n, any_of(j, 1, "value")), sx_choose(2, "bad") ? "--nope" : "-g", NULL }; pair(3, av, 3, bv); }
void two_lines(void) { char *av[] = { "prog", "cmd", vf_strset(sx_choose(4, "length"), "-AN=1h", "argument"), "x", NULL }, *bv[] = { "prog", sx_choose(2, "command") ? "cmd" : "cmf", vf_strset(sx_choose(3, "length"), "-A1", "argument"), NULL }; pair(4, av, 3, bv); }
/* one parser inside the action of the other */
static argus_t *inner_ref; static O *inner_t; static int inner_c, inner_want, inner_ran; static char **inner_v;
static int inner(argus_t *outer, void *d) { argus_t b; CHECK(d == &inner_ran, "the data of the caller"); inner_ran++; (void)argus_get(outer, "str"); int st = go(&b, inner_t, inner_c, inner_v); CHECK(st == inner_want, ALONE); if (st == 0) { alike(&b, inner_ref, inner_t); (void)argus_exec(&b, NULL); argus_free(&b); } return st ? 3 : 4; }
void nested_parser(void) {
  char *av[] = { "prog", "--str=s", "cmd", vf_strset(sx_choose(3, "length"), "aA-1", "argument"), NULL }, *bv[] = { "prog", sx_choose(2, "command") ? "cmf" : "--str=t", vf_strset(sx_choose(4, "length"), "-A1,gb", "argument"), NULL }; vf_on_exit = unlike_end; vf_capture = vf_vague = 1; vf_regex_real = 1; O *tr = full(), *ts = full(), *ta = full(); argus_t r, s, a; int sr = go(&r, tr, 4, av), ss = go(&s, ts, 3, bv); inner_t = full(); inner_ref = &s; inner_want = ss; inner_c = 3; inner_v = bv;
  for (O *o = ta; o->type != TYPE_NONE; o++) if (o->type == TYPE_SUBCOMMAND && vf_eq(o->name, "cmd")) o->action = inner; int sa = go(&a, ta, 4, av); CHECK(sa == sr, ALONE); if (sa) { sx_reach("rejected"); return; } sx_reach("accepted"); int e = argus_exec(&a, &inner_ran); CHECK(inner_ran == 1 && e == (ss ? 3 : 4), "the action's result is returned"); alike(&a, &r, ta); argus_free(&a);
}
/* whatever was parsed before, the next parser with a table of its own does the same, and shows the same */
static size_t shown(int c, char **av, const char *prefix, char *text, int *st, argus_t *a, O *t) { vf_outlen[0] = vf_outlen[1] = 0; *a = argus_init(t, "prog", "1"); a->env_prefix = prefix; *st = argus_parse(a, c, av); argus_print_help(a); argus_print_usage(a); if (*st == 0) (void)argus_exec(a, NULL); size_t n = 0; for (int f = 0; f < 2; f++) for (size_t i = 0; i < vf_outlen[f]; i++) text[n++] = vf_out[f][i]; return n; }
static char first[40000], second[40000];
static O *shown_table(int kind) { O *t = full(); for (O *o = t; o->type != TYPE_NONE; o++) { if (o->type == TYPE_OPTION) o->help = "about"; if (o->name && vf_eq(o->name, "flt")) o->flags |= FLAG_AUTO_ENV; if (o->type == TYPE_SUBCOMMAND && kind) o->action = act; } return t; }
static O *other_table(int kind) { O *t = shown_table(kind); for (O *o = t; o->type != TYPE_NONE; o++) { if (!o->name) continue; if (vf_eq(o->name, "int")) { o->lname = o->name = "an-option-with-a-much-longer-name-than-any-of-the-rest"; o->hint = "A_LONG_HINT"; } if (vf_eq(o->name, "af")) { o->hint = "NUMBER"; o->help = "a description that is long enough to be wrapped over two lines of the usual width of a terminal, and more"; } if (vf_eq(o->name, "chi")) o->sname = 0; } return t; }
static void unlike_rest(int code) { CHECK(code == 0, "only help and version end the program"); }
void history(void) {
  static char *const lines[][4] = { {"prog", "--str=a", "p", "1"}, {"prog", "--nope", "p", "1"}, {"prog", "cmd", "-A", "b,a"}, {"prog", "--int=x", "p", "1"}, {"prog", "--as=b,a", "-I1-3", "p"}, {"prog", "cmf", "2", "1"} };
  int l = (int)sx_choose(ARRLEN(lines), "line"), kind = (int)sx_choose(2, "prefix"); char *yv[] = { lines[l][0], lines[l][1], lines[l][2], lines[l][3], NULL }; const char *pre = kind ? "PRE" : NULL; vf_on_exit = unlike_rest; vf_capture = vf_vague = 1; vf_regex_real = 1; vf_env("PRE_FLT", S("2")); vf_env("STR", S("e"));
  argus_t a, b, x; int sa, sb; O *t = shown_table(kind), *u = shown_table(kind); size_t n = shown(4, yv, pre, first, &sa, &a, t);
  static const char *const voc[] = {"cmd", "cm", "--str", "--", "-gb", "--ai=3-1", "--ms=a", "-x", "--help=1", "--bool=maybe"}; char *xv[] = { "prog", sx_choose(2, "kind") ? (char *)voc[sx_choose(ARRLEN(voc), "word")] : vf_strset(3, "-sAxg=", "argument"), vf_strset(sx_choose(3, "length"), "-c1,", "argument"), NULL }; O *w = other_table(!kind); x = argus_init(w, "other", "2"); x.env_prefix = kind ? "X" : "PRE"; int sx = argus_parse(&x, 3, xv); if (sx == 0) { sx_reach("accepted before"); look_all(&x, w); if (sx_choose(2, "free")) argus_free(&x); } else sx_reach("rejected before"); if (sx_choose(2, "help")) argus_print_help(&x);
  size_t m = shown(4, yv, pre, second, &sb, &b, u); CHECK(sa == sb && n == m, "what was parsed before does not matter"); bool s = true; for (size_t i = 0; i < n; i++) s &= first[i] == second[i]; CHECK(s, "what was parsed before does not matter"); if (sa == 0) { alike(&a, &b, t); argus_free(&a); argus_free(&b); }
}
/* however often */
void history_many(void) {
  static char *const before[][4] = { {"prog", "cmd", "--nope", "1"}, {"prog", "cmd", "-A", "b"}, {"prog", "cmf", "x", "1"}, {"prog", "--as=b,a", "p", "x"}, {"prog", "--chi=9", "p", "1"}, {"prog", "c", "1", "1"}, {"prog", "--ms=a=1,a=2", "--", "-x"}, {"prog", "-iz", "p", "1"}, {"prog", "--re=q", "--len=12345", "p"}, {"prog", "--rq=1", "p", "1"} }; static const int times[] = {1, 2, 7, 8, 9, 16, 17, 33, 65, 130};
  char *yv[] = { "prog", "cmd", vf_strset(sx_choose(3, "length"), "-Aa1", "argument"), "z", NULL }; vf_on_exit = unlike_rest; vf_capture = vf_vague = vf_regex_real = 1; int b = (int)sx_choose(ARRLEN(before), "before"), n = times[sx_choose(ARRLEN(times), "times")]; argus_t r, a; O *t = shown_table(1), *u = shown_table(1), *w = other_table(0); int sr, sa; size_t k = shown(4, yv, NULL, first, &sr, &r, t);
  char *bv[] = { before[b][0], before[b][1], before[b][2], before[b][3], NULL }; for (int i = 0; i < n; i++) { vf_capture = 0; argus_t x = argus_init(w, "prog", "1"); int st = argus_parse(&x, 4, bv); if (st == 0) { (void)argus_exec(&x, NULL); argus_free(&x); } } vf_capture = 1;
  size_t m = shown(4, yv, NULL, second, &sa, &a, u); CHECK(sr == sa && k == m, "what was parsed before does not matter"); bool s = true; for (size_t i = 0; i < k; i++) s &= first[i] == second[i]; CHECK(s, "what was parsed before does not matter"); if (sa == 0) { sx_reach("accepted"); alike(&r, &a, t); argus_free(&a); argus_free(&r); } else sx_reach("rejected");
}
/* the same question to one parser after the other */
void two_readers(void) {
  char *x = vf_strset(1, "0123456789", "value"), *y = vf_strset(1, "0123456789", "value"); int lv = (int)sx_choose(3, "levels"), env = (int)sx_choose(5, "variables"), pre_ = (int)sx_choose(4, "prefixes"); argus_t p[2]; O *t[2], *top[2]; vf_on_exit = no_exit; const char *px[2] = { pre_ & 1 ? "AA" : NULL, pre_ & 2 ? "BB" : NULL };
  for (int i = 0; i < 2; i++) { O o[] = { OPTION_INT('n', "num"), OPTION_STRING('s', "str"), OPTION_ARRAY_INT('l', "list"), OPTION_MAP_INT('m', "map"), OPTION_FLAG('f', "flag"), OPTION_END() }; if (env) for (int k = 0; k < (env > 2 ? 1 : 4); k++) { if (env & 1) o[k].flags |= FLAG_AUTO_ENV; else if (k < 2) o[k].env_name = k ? "STR" : "NUM"; } t[i] = TAB(o); O c2[] = { SUBCOMMAND("in", t[i]), OPTION_END() }, c1[] = { SUBCOMMAND("go", lv == 2 ? TAB(c2) : t[i]), OPTION_END() }; top[i] = lv ? TAB(c1) : t[i]; }
  vf_env("AA_NUM", x); vf_env("BB_NUM", y); vf_env("AA_STR", x); vf_env("BB_STR", y); vf_env("NUM", S("7")); vf_env("STR", S("7")); bool from = env && sx_choose(2, "from variables");
  for (int i = 0; i < 2; i++) { char *v = i ? y : x, *av[16]; int c = 0; av[c++] = "prog"; if (lv) av[c++] = S("go"); if (lv == 2) av[c++] = S("in"); if (!from) { av[c++] = S("-n"); av[c++] = v; } if (!from || env > 2) { av[c++] = S("-s"); av[c++] = v; } av[c++] = S("-l"); av[c++] = vf_cat(v, vf_cat(",", v)); av[c++] = vf_cat("-mk=", v); if (i) av[c++] = S("-f"); av[c] = 0; p[i] = argus_init(top[i], "prog", "1"); p[i].env_prefix = px[i]; CHECK(argus_parse(&p[i], c, av) == 0, "each parser reads its own command line"); }
  static const char *const base_[] = { "num", "str", "list", "map", "flag" }; const char *n[5]; int path = lv ? (int)sx_choose(2, "path") : 0; for (int k = 0; k < 5; k++) n[k] = path ? vf_cat(lv == 2 ? "go.in." : "go.", base_[k]) : base_[k];
  for (int round = 0; round < 2; round++) for (int k = 0; k < 5; k++) for (int i = 0; i < 2; i++) {
    argus_t *a = &p[i]; char *w = !from || (k == 1 && env > 2) ? (i ? y : x) : px[i] ? (i ? y : x) : S("7"); char *v = i ? y : x; int64_t d = v[0] - '0'; switch (k) { case 0: CHECK(argus_get(a, n[0]).as_int64 == w[0] - '0', ALONE); break; case 1: CHECK(argus_get(a, n[1]).as_string[0] == w[0], ALONE); break; case 2: { argus_array_it_t it = argus_array_it(a, n[2]); CHECK(argus_count(a, n[2]) == 2 && argus_array_get(a, n[2], 1).as_int64 == d && argus_array_next(&it) && it.value.as_int64 == d, ALONE); break; } case 3: { argus_map_it_t it = argus_map_it(a, n[3]); CHECK(argus_map_get(a, n[3], "k").as_int64 == d && argus_map_next(&it) && it.value.as_int64 == d, ALONE); break; } default: CHECK(argus_is_set(a, n[4]) == (i == 1) && argus_get(a, n[4]).as_bool == (i == 1), ALONE); }
  }
  sx_reach("read"); argus_free(&p[0]); CHECK(argus_array_get(&p[1], n[2], 0).as_int64 == y[0] - '0', ALONE); argus_free(&p[1]);
}
