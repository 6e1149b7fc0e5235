/* Programs that declare much, and collections that hold much. */
#include "common.h"
#include <stdio.h>
#include <string.h>
enum { N = 60, M = 12 };
static char *two(char p, int i) { char b[4] = { p, (char)('0' + i / 10), (char)('0' + i % 10), 0 }; return S(b); }
static char letter_of(int i) { return i < 26 ? (char)('a' + i) : i < 52 ? (char)('A' + i - 26) : '\0'; }
static O kind_of(int k, char c, char *n) {
  switch (k) { case 0: return (O)OPTION_FLAG(c, n, HELP("h")); case 1: return (O)OPTION_STRING(c, n, HELP("h")); case 2: return (O)OPTION_INT(c, n, HELP("h")); case 3: return (O)OPTION_ARRAY_INT(c, n, HELP("h")); case 4: return (O)OPTION_MAP_INT(c, n, HELP("h")); case 5: return (O)OPTION_BOOL(c, n, HELP("h")); default: return (O)OPTION_FLOAT(c, n, HELP("h")); }
}
static char *nm[N + 1];
static O *table(int n) { O *t = vf_mem((size_t)(n + 1) * sizeof(O)); for (int i = 0; i < n; i++) { nm[i] = two('o', i); t[i] = kind_of(i % 7, letter_of(i), nm[i]); } t[n] = (O)OPTION_END(); return t; }
static void holds(argus_t *a, int i, char d) {
  argus_value_t v = argus_get(a, nm[i]); int64_t x = d - '0'; CHECK(argus_count(a, nm[i]) == 1, "an option given once holds one value");
  switch (i % 7) { case 0: CHECK(v.as_bool, "an option holds the value given to it"); break; case 1: CHECK(v.as_string[0] == d && !v.as_string[1], "an option holds the value given to it"); break; case 2: CHECK(v.as_int64 == x, "an option holds the value given to it"); break; case 3: CHECK(argus_array_get(a, nm[i], 0).as_int64 == x, "an option holds the value given to it"); break; case 4: CHECK(argus_map_get(a, nm[i], "k").as_int64 == x, "an option holds the value given to it"); break; case 5: CHECK(v.as_bool == (d == '1'), "an option holds the value given to it"); break; default: CHECK(v.as_float == (double)x, "an option holds the value given to it"); }
}
/* any option of a long table, in any spelling, with another before or after it */
void options(void) {
  O *t = table(N); int i = (int)sx_choose(N, "option"), j = (i + 1 + (int)sx_choose(3, "other") * 17) % N, way = (int)sx_choose(5, "spelling"); char *v = vf_strset(1, i % 7 == 5 ? "01" : "0123456789", "value"), *x = i % 7 == 4 ? vf_cat("k=", v) : v, c = letter_of(i), sh[3] = { '-', c, 0 }; argus_t a; char *av[8]; int n = 0; if (way >= 2 && !c) sx_end(); if (i % 7 == 0 && way != 0 && way != 2) sx_end(); vf_on_exit = no_exit;
  char *y = j % 7 == 0 ? vf_cat("--", nm[j]) : vf_cat("--", vf_cat(nm[j], j % 7 == 4 ? "=k=1" : "=1")); bool first = sx_choose(2, "first"); av[n++] = "prog"; if (first) av[n++] = y;
  switch (way) { case 0: av[n++] = vf_cat("--", nm[i]); if (i % 7) av[n++] = x; break; case 1: av[n++] = vf_cat("--", vf_cat(nm[i], vf_cat("=", x))); break; case 2: av[n++] = S(sh); if (i % 7) av[n++] = x; break; case 3: av[n++] = vf_cat(S(sh), x); break; default: { char b[5] = { '-', 'a', c, 0 }; if (i == 0 || j == 0) sx_end(); av[n++] = vf_cat(S(b), x); } }
  if (!first) av[n++] = y; av[n] = 0; CHECK(go(&a, t, n, av) == 0, "every option of a long table is known");
  for (int k = 0; k < N; k++) CHECK(argus_is_set(&a, nm[k]) == (k == i || k == j || (k == 0 && way == 4)), "exactly the options given are set"); holds(&a, i, v[0]); holds(&a, j, '1'); sx_reach("set"); argus_free(&a);
}
/* a name or letter that is nearly one of them */
void unknown(void) {
  O *t = table(N); argus_t a; bool shrt = sx_choose(2, "short"); char *w = shrt ? vf_strn(1, "letter") : vf_strset(1 + sx_choose(4, "length"), "o0359", "name"); int r = -1; vf_on_exit = no_exit; for (int i = 0; i < N; i++) t[i] = (O)OPTION_FLAG(letter_of(i), nm[i]);
  if (shrt) sx_assume(w[0] != '-'); int st = GO(a, t, vf_cat(shrt ? "-" : "--", w)); for (int i = 0; i < N; i++) if (shrt ? letter_of(i) && w[0] == letter_of(i) : vf_eq(w, nm[i])) { r = i; break; }
  if (r < 0) { sx_reach("unknown"); CHECK(st == ARGUS_ERROR_INVALID_ARGUMENT, "what is not declared is rejected"); return; }
  sx_reach("known"); CHECK(st == 0, "every option of a long table is known"); for (int i = 0; i < N; i++) CHECK(argus_is_set(&a, nm[i]) == (i == r), "exactly the options given are set"); argus_free(&a);
}
/* many commands, after a few options or many */
static int ran[N + 1]; static int run(argus_t *a, void *d) { int *w = d; (void)a; *w += 1; return 0; }
static int (*const act)(argus_t *, void *) = run;
static bool pre(const char *w, const char *n) { for (; *w; w++, n++) if (*w != *n) return false; return true; }
static O *commands_of(int opts, int cmds, char **cn, O **sub) {
  O *t = vf_mem((size_t)(opts + cmds + 1) * sizeof(O)); for (int i = 0; i < opts; i++) { char b[3] = { 'x', (char)('A' + i), 0 }; t[i] = (O)OPTION_FLAG((char)('A' + i), NULL); t[i].name = t[i].lname = S(b); }
  for (int i = 0; i < cmds; i++) { char b[4] = { (char)('a' + i / 6), i % 6 == 5 ? 0 : (char)('0' + i % 6), i % 6 == 4 ? 'x' : 0, 0 }; /* a name that others begin with among them */ cn[i] = S(b); sub[i] = vf_mem(3 * sizeof(O)); sub[i][0] = (O)OPTION_FLAG('f', "flag"); sub[i][1] = (O)OPTION_INT('n', "num"); sub[i][2] = (O)OPTION_END(); t[opts + i] = (O)SUBCOMMAND(cn[i], sub[i], HELP("h")); }
  t[opts + cmds] = (O)OPTION_END(); return t;
}
void commands(void) {
  static const int num[] = {1, 7, 8, 9, 16, 17, 31, 32, 33, 60}, opt[] = {0, 1, 20}; int n = num[sx_choose(ARRLEN(num), "commands")], o = opt[sx_choose(ARRLEN(opt), "options")]; char *cn[N]; O *sub[N]; O *t = commands_of(o, n, cn, sub); argus_t a; char *w = vf_strset(1 + sx_choose(3, "length"), "abfj014x", "word"), *d = vf_strset(1, "0123456789", "digit"); vf_on_exit = no_exit;
  int st = GO(a, t, w, S("-n"), d), r = -1, m = 0; for (int i = 0; i < n; i++) if (vf_eq(w, cn[i])) { r = i; break; } if (r < 0) { for (int i = 0; i < n; i++) if (pre(w, cn[i])) { r = i; m++; } if (m > 1) { CHECK(st == ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND, "a word that abbreviates several commands is rejected as ambiguous"); return; } }
  if (r < 0) { sx_reach("none"); CHECK(st == ARGUS_ERROR_INVALID_ARGUMENT, "a word that names no command does not choose one"); return; }
  sx_reach("chosen"); CHECK(st == 0, "a command named in full or by an unambiguous abbreviation is chosen"); for (int i = 0; i < n; i++) { CHECK(argus_is_set(&a, cn[i]) == (i == r), "exactly the command named is chosen"); CHECK(sub[i][1].is_set == (i == r), "what follows a command is read by its own options"); }
  CHECK(argus_get(&a, vf_cat(cn[r], ".num")).as_int64 == d[0] - '0', "a path names the option of its command"); CHECK(argus_get(&a, "num").as_int64 == d[0] - '0', "what follows a command is read by its own options"); argus_free(&a);
}
/* the action of the command chosen */
static int acted[N]; 
#define A(i) static int act##i(argus_t *a, void *d) { (void)a; (void)d; acted[i]++; return 100 + i; }
A(0) A(1) A(2) A(3) A(4) A(5) A(6) A(7) A(8) A(9) A(10) A(11) A(12) A(13) A(14) A(15) A(16) A(17) A(18) A(19)
static int (*const acts[])(argus_t *, void *) = { act0, act1, act2, act3, act4, act5, act6, act7, act8, act9, act10, act11, act12, act13, act14, act15, act16, act17, act18, act19 };
void actions(void) {
  int n = 40, below = (int)sx_choose(2, "below"), i = (int)sx_choose((uint64_t)n, "command"); char *cn[N], *dn[N]; O *sub[N], *leafs[N]; O *t = commands_of(2, n, cn, sub), *u = t; if (below) { u = commands_of(1, n, dn, leafs); t[2 + i].sub_options = u; } argus_t a; vf_on_exit = no_exit; int k = below ? (i * 7 + 3) % n : i; for (int j = 0; j < n; j++) { u[(below ? 1 : 2) + j].action = j % 2 ? acts[j / 2] : NULL; if (below) t[2 + j].action = acts[(j + 5) % 20]; }
  CHECK((below ? GO(a, t, cn[i], dn[k]) : GO(a, t, cn[i])) == 0, "every command of a long table is known"); int r = argus_exec(&a, NULL); bool has = k % 2; for (int j = 0; j < 20; j++) CHECK(acted[j] == (has && j == k / 2), "exactly the action of the innermost command runs, once"); CHECK(has ? r == 100 + k / 2 : r == ARGUS_ERROR_INVALID_HANDLER, "the result of the action is returned"); sx_reach("ran"); (void)act; (void)ran; argus_free(&a);
}
/* one variable among many options bound to some */
void variables(void) {
  O *t = table(N); int i = (int)sx_choose(N, "option"), how = (int)sx_choose(3, "bound"), given = (int)sx_choose(2, "given"), j = (i + 29) % N; char *v = vf_strset(1, "01", "value"); argus_t a; vf_on_exit = no_exit; for (int k = 0; k < N; k++) { if (how == 0) t[k].env_name = two('E', k); else { t[k].flags |= FLAG_AUTO_ENV; if (how == 2 && k % 2) t[k].flags |= FLAG_NO_ENV_PREFIX; } }
  char *en = vf_cat(how == 1 || (how == 2 && i % 2 == 0) ? "AP_" : "", two(how ? 'O' : 'E', i)); vf_env(en, i % 7 == 4 ? vf_cat("k=", v) : v); a = argus_init(t, "prog", "1"); a.env_prefix = how ? "AP" : NULL; char *av[] = { "prog", j % 7 == 0 ? vf_cat("--", nm[j]) : vf_cat("--", vf_cat(nm[j], j % 7 == 4 ? "=k=1" : "=1")), NULL };
  CHECK(argus_parse(&a, given ? 2 : 1, av) == 0, "environment variables with plain texts are accepted"); for (int k = 0; k < N; k++) CHECK(argus_is_set(&a, nm[k]) == (k == i || (given && k == j)), "an option is set exactly by the variable bound to it"); if (i % 7) holds(&a, i, v[0]); else CHECK(argus_get(&a, nm[i]).as_bool == (v[0] == '1'), "the value is the variable's"); sx_reach("read"); argus_free(&a);
}
/* a long table is refused exactly when two of its entries collide */
static bool want; static void refused(int code) { sx_reach("refused"); CHECK(code == 1, "a table that breaks a rule ends the program with failure"); CHECK(!want, "a table that keeps the rules is accepted"); CHECK(vf_outlen[1] > 0, "a table that breaks a rule is reported"); }
void collide(void) {
  O *t = table(N); int i = (int)sx_choose(N, "one"), d = 1 + (int)sx_choose(Q(6, 12), "apart"), how = (int)sx_choose(6, "how"), j = (i + d * d * d) % N; for (int k = 0; k < N; k++) { if (k % 7 == 3) t[k] = (O)OPTION_STRING(letter_of(k), nm[k], HELP("h")); } t[7] = (O)HELP_OPTION(); nm[7] = S("help"); if (i == j || i == 7 || j == 7) sx_end();
  switch (how) { case 0: break; case 1: t[i].name = t[i].lname = nm[j]; break; case 2: if (!letter_of(j)) sx_end(); t[i].sname = letter_of(j); break; case 3: t[i].require = (const char *[]){ "o03", nm[j], NULL }; break; case 4: t[i].require = (const char *[]){ "o03", "o60", NULL }; break; default: t[i].conflict = (const char *[]){ nm[j], two('o', N + i % 10), NULL }; }
  for (int k = 0; k < N; k++) if (t[k].sname == 'h' && k != 7) t[k].sname = '\0'; /* the letter of the help option */ if (how == 2 && t[i].sname == '\0') sx_end(); if (how == 2 && t[j].sname != t[i].sname) sx_end(); if (how == 3 && i == 3) sx_end(); if (how == 4 && i == 3) sx_end();
  const char *m[2][3]; for (int k = 0; k < 2; k++) { const char **l = k ? t[i].conflict : t[i].require; if (l) { for (int q = 0; q < 3; q++) m[k][q] = l[q]; if (k) t[i].conflict = m[k]; else t[i].require = m[k]; } }
  want = how == 0 || how == 3; vf_capture = 1; vf_on_exit = refused; argus_t a = _argus_init_validate(t, "prog", "1", true); CHECK(want, "a table that breaks a rule is refused"); CHECK(silent(), "an accepted table is not commented"); CHECK(a.options == t, "the program gets its table"); sx_reach("accepted");
}
/* every entry of a long table is shown once, in its place */
static size_t seek(const char *w, size_t from, int *n) { size_t r = 0, l = vf_len(w); *n = 0; for (size_t i = from; i + l <= vf_outlen[0]; i++) { size_t k = 0; while (k < l && vf_out[0][i + k] == w[k]) k++; if (k == l && !(*n)++) r = i; } return r; }
void shown(void) {
  static const int num[] = {7, 8, 9, 16, 17, 31, 32, 33, 60}; int n = num[sx_choose(ARRLEN(num), "entries")], kind = (int)sx_choose(4, "kind"), hid = (int)sx_choose((uint64_t)n, "hidden"); O *t = vf_mem((size_t)(n + 2) * sizeof(O)), leaf[] = { HELP_OPTION(), OPTION_END() }; char *mk[N], *x = vf_strset(1, "abc", "letter"); int c = 0; t[c++] = (O)HELP_OPTION(); bool group = kind == 3; argus_t a;
  for (int i = 0; i < n; i++) { mk[i] = two('o', i); char *h = vf_cat("about ", vf_cat(two('m', i), x)); t[c] = kind == 1 ? (O)SUBCOMMAND(mk[i], leaf, HELP(h)) : kind == 2 ? (O)POSITIONAL_STRING(mk[i], HELP(h)) : kind_of(i % 7, letter_of(i) == 'h' ? '\0' : letter_of(i), mk[i]); t[c].help = h; if (i == hid && kind != 2) t[c].flags |= FLAG_HIDDEN; c++; } t[c] = (O)OPTION_END(); (void)group;
  vf_capture = 1; a = argus_init(t, "prog", "1"); argus_print_help(&a); size_t last = 0; int k; for (int i = 0; i < n; i++) { char *w = vf_cat("about ", two('m', i)); size_t p = seek(w, 0, &k); if (i == hid && kind != 2) { CHECK(k == 0, "nothing hidden is shown"); continue; } CHECK(k == 1, "every visible entry is described exactly once"); CHECK(vf_out[0][p + 9] == x[0], "a description is shown unaltered"); CHECK(p > last, "entries are shown in the order declared"); last = p; seek(vf_cat(kind == 1 ? "\n  " : kind == 2 ? "\n  <" : "--", vf_cat(mk[i], kind == 2 ? ">" : " ")), 0, &k); CHECK(k == 1, "every visible entry is named exactly once"); } sx_reach("shown");
}
/* collections of sizes around powers of two: growing, reading, reading again, releasing */
static const int sizes[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 511, 513};
static void key_of(char *b, int i) { b[0] = (char)('a' + i % 26); b[1] = (char)('a' + i / 26 % 26); b[2] = 0; }
void collections(void) {
  int n = sizes[sx_choose(ARRLEN(sizes), "elements")], kind = (int)sx_choose(10, "kind"), way = (int)sx_choose(3, "way"), at = (int)sx_choose(3, "place"), c = 0; at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; bool map = kind >= 3 && kind < 7, oper = kind > 6; if (oper && way) sx_end(); if (n > 130 && (way || at != n - 1)) sx_end(); char *d = vf_strset(1, kind == 6 ? "01" : "0123456789", "digit"); argus_t a; vf_on_exit = no_exit;
  O t[] = { kind == 0 ? OPTION_ARRAY_STRING('c', "col") : kind == 1 ? OPTION_ARRAY_INT('c', "col") : kind == 2 ? OPTION_ARRAY_FLOAT('c', "col") : kind == 3 ? OPTION_MAP_STRING('c', "col") : kind == 4 ? OPTION_MAP_INT('c', "col") : kind == 5 ? OPTION_MAP_FLOAT('c', "col") : kind == 6 ? OPTION_MAP_BOOL('c', "col") : kind == 7 ? POSITIONAL_MANY_STRING("col") : kind == 8 ? POSITIONAL_MANY_INT("col") : POSITIONAL_MANY_FLOAT("col"), OPTION_END() };
  char **e = vf_mem((size_t)n * sizeof *e), **av = vf_mem((size_t)(n + 4) * sizeof *av), *x = vf_mem((size_t)n * 5 + 2), *q = x; av[c++] = "prog"; x[0] = 0;
  for (int i = 0; i < n; i++) { char b[6]; int k = 0; if (map) { key_of(b, i); k = 2; b[k++] = '='; } b[k] = (char)('0' + i % (kind == 6 ? 2 : 10)); if (i == at) b[k] = d[0]; b[k + 1] = 0; e[i] = S(b); bool one = oper || way == 1 || (way == 2 && i % 5 == 4); if (one) { if (q > x) { *q = 0; av[c++] = vf_cat("--col=", x); q = x; } av[c++] = oper ? e[i] : vf_cat("-c", e[i]); } else { if (q > x) *q++ = ','; for (int j = 0; b[j]; j++) *q++ = b[j]; } }
  if (q > x) { *q = 0; av[c++] = vf_cat("-c", x); } av[c] = 0; size_t base = sx_live(); CHECK(go(&a, t, c, av) == 0, "a large collection is accepted");
  for (int round = 0; round < 2; round++) {
    CHECK(argus_count(&a, "col") == (size_t)n, "no element of a large collection is lost"); argus_array_it_t it = argus_array_it(&a, "col"); argus_map_it_t mt = argus_map_it(&a, "col"); int s = 0;
    while (map ? argus_map_next(&mt) : argus_array_next(&it)) { CHECK(s < n, "an iterator ends after the last element"); s++; if (s == n + 1) break; } CHECK(s == n, "an iterator visits every element");
    for (int i = 0; i < n; i++) { if (n > 40 && i != at && i % 16 > 1 && i < n - 3) continue; char b[3]; key_of(b, i); argus_value_t v = map ? argus_map_get(&a, "col", b) : argus_array_get(&a, "col", (size_t)i); CHECK(a.error_code == 0, "every element can be read"); char w = e[i][map ? 3 : 0]; bool ok = kind == 0 || kind == 3 || kind == 7 ? v.as_string[0] == w && !v.as_string[1] : kind == 2 || kind == 5 || kind == 9 ? v.as_float == (double)(w - '0') : kind == 6 ? v.as_bool == (w == '1') : v.as_int64 == w - '0'; CHECK(ok, "every element keeps its value"); }
    if (map) CHECK(argus_map_get(&a, "col", "zzz").raw == 0 && a.error_code == ARGUS_ERROR_INVALID_KEY, "a key that is not in the map reads as zero with its status"); else CHECK(argus_array_get(&a, "col", (size_t)n).raw == 0 && a.error_code == ARGUS_ERROR_INVALID_INDEX, "an index beyond the list reads as zero with its status");
  }
  argus_free(&a); CHECK(sx_live() == base, "after freeing nothing is left"); sx_reach(n > 64 ? "large" : "small");
}
/* many elements in the reverse of their order, with repeats: ordered and unique all the same, and nothing left behind */
void ordered(void) {
  static const int num[] = {33, 64, 65, 100, 129}; int n = num[sx_choose(ARRLEN(num), "elements")], kind = (int)sx_choose(7, "kind"), dup = 1 + (int)sx_choose(2, "repeats"), c = 0; bool s, u; int f = 1 + (int)sx_choose(3, "flags"); s = f & 1; u = f & 2; argus_t a; bool map = kind > 3; vf_on_exit = no_exit; argus_optflags_t fl = (argus_optflags_t)((s ? (map ? (kind == 6 ? FLAG_SORTED_KEY : FLAG_SORTED_VALUE) : FLAG_SORTED) : 0) | (u ? (map ? FLAG_UNIQUE_VALUE : FLAG_UNIQUE) : 0)); if (map && f == 3 && kind != 6) sx_end();
  O t[] = { kind == 0 ? OPTION_ARRAY_INT('c', "col", FLAGS(fl)) : kind == 1 ? OPTION_ARRAY_FLOAT('c', "col", FLAGS(fl)) : kind == 2 ? OPTION_ARRAY_STRING('c', "col", FLAGS(fl)) : kind == 3 ? POSITIONAL_MANY_INT("col", FLAGS(fl)) : kind == 4 ? OPTION_MAP_INT('c', "col", FLAGS(fl)) : kind == 5 ? OPTION_MAP_FLOAT('c', "col", FLAGS(fl)) : OPTION_MAP_STRING('c', "col", FLAGS(fl)), OPTION_END() };
  char *d = vf_strset(1, "0123456789", "digit"), **av = vf_mem((size_t)(n + 4) * sizeof *av), *x = vf_mem((size_t)n * 7 + 4), *q = x; av[c++] = "prog"; int z = (int)sx_conc((uint64_t)(d[0] - '0'));
  for (int i = 0; i < n; i++) { int w = (n - 1 - i + z * 13) % n / dup; char b[8]; int k = 0; if (map) { key_of(b, n - 1 - i); k = 2; b[k++] = '='; } b[k++] = (char)('0' + w / 100); b[k++] = (char)('0' + w / 10 % 10); b[k++] = (char)('0' + w % 10); b[k] = 0; if (kind == 3) av[c++] = S(b); else { if (i) *q++ = ','; for (k = 0; b[k]; k++) *q++ = b[k]; } } *q = 0; if (kind != 3) av[c++] = vf_cat("-c", x); av[c] = 0;
  bool *seen = vf_mem((size_t)n + 1); memset(seen, 0, (size_t)n + 1);
  size_t base = sx_live(); CHECK(go(&a, t, c, av) == 0, "an ordered collection is accepted"); int m = u ? (n + dup - 1) / dup : n; CHECK(argus_count(&a, "col") == (size_t)m, u ? "repeated values are kept once" : "sorting keeps every value"); argus_map_it_t mt = argus_map_it(&a, "col"); int last = -1; char lk[4] = "";
  for (int i = 0; i < m; i++) { argus_value_t v; if (map) { CHECK(argus_map_next(&mt), "sorting keeps every value"); v = mt.value; } else v = argus_array_get(&a, "col", (size_t)i); const char *p = kind == 2 || kind == 6 ? v.as_string : NULL; int w = p ? (p[0] - '0') * 100 + (p[1] - '0') * 10 + p[2] - '0' : kind == 1 || kind == 5 ? (int)v.as_float : (int)v.as_int64; CHECK(w >= 0 && w < n, "removing repeats keeps distinct values only"); if (s && kind != 6) CHECK(w >= last, "values come in ascending order, none lost"); if (s && kind == 6) { CHECK(i == 0 || strcmp(lk, mt.key) < 0, "entries come in ascending order of their keys"); memcpy(lk, mt.key, 3); } if (u) CHECK(!seen[w], "removing repeats keeps distinct values only"); seen[w] = true; last = w; }
  for (int w = 0; w < (n + dup - 1) / dup; w++) CHECK(seen[w], "removing repeats keeps every distinct value"); argus_free(&a); CHECK(sx_live() == base, "after freeing nothing is left"); sx_reach("ordered");
}
/* many operands, for few positionals or many, the last of which may repeat */
void operands(void) {
  static const int num[] = {1, 7, 8, 9, 31, 33, 60, 127, 128, 129, 254, 255, 256, 257, 258, 300, 513}; int n = num[sx_choose(ARRLEN(num), "operands")], rep = (int)sx_choose(4, "repeating"), p = rep ? (int)sx_choose(4, "positionals") : (n > 60 ? 60 : n), at = (int)sx_choose(3, "place"), c = 0, o = 0; if (rep && p > n) sx_end(); if (!rep && p < n) sx_end(); if (p == 3) p = n > 60 ? 50 : n - 1; if (p > n) sx_end();
  O *t = vf_mem((size_t)(p + 6) * sizeof(O)); char *pn[N + 1]; t[o++] = (O)OPTION_FLAG('f', "flag"); for (int i = 0; i < p; i++) { pn[i] = two('p', i); t[o++] = (O)POSITIONAL_STRING(pn[i], FLAGS(FLAG_OPTIONAL)); if (at == 2 && i == p / 2) t[o++] = (O)OPTION_INT('n', "num"); } switch (rep) { case 1: t[o++] = (O)POSITIONAL_MANY_STRING("xs", FLAGS(FLAG_OPTIONAL)); break; case 2: t[o++] = (O)POSITIONAL_MANY_INT("xs", FLAGS(FLAG_OPTIONAL)); break; case 3: t[o++] = (O)POSITIONAL_MANY_FLOAT("xs", FLAGS(FLAG_OPTIONAL)); break; default: ; } t[o] = (O)OPTION_END();
  char *d = vf_strset(1, "0123456789", "digit"), **av = vf_mem((size_t)(n + 6) * sizeof *av); av[c++] = "prog"; int sep = (int)sx_choose(3, "separator"); if (sep == 1) av[c++] = S("-f"); static char *const w[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}; for (int i = 0; i < n; i++) { if (sep == 2 && i == n / 2) av[c++] = S("--"); if (at == 1 && i == n - 1 && sep != 2) av[c++] = S("-f"); av[c++] = i == n - 1 ? d : w[i % 7]; } av[c] = 0; argus_t a; vf_on_exit = no_exit; int st = go(&a, t, c, av);
  CHECK(st == 0, "operands for every positional are accepted"); for (int i = 0; i < p; i++) { argus_value_t v = argus_get(&a, pn[i]); CHECK(v.as_string[0] == (i == n - 1 ? d : w[i % 7])[0] && !v.as_string[1], "operands fill the positionals in order"); } if (rep) { CHECK(argus_count(&a, "xs") == (size_t)(n - p), "a repeating positional takes all that remain"); for (int i = p; i < n; i++) { argus_value_t v = argus_array_get(&a, "xs", (size_t)(i - p)); char x = i == n - 1 ? d[0] : w[i % 7][0]; CHECK(rep == 1 ? v.as_string[0] == x && !v.as_string[1] : rep == 2 ? v.as_int64 == x - '0' : v.as_float == (double)(x - '0'), "operands fill the positionals in order"); } }
  CHECK(argus_is_set(&a, "flag") == (sep == 1 || (at == 1 && sep != 2)), "options may stand between operands"); argus_free(&a); sx_reach("accepted");
  O *u = vf_mem((size_t)(o + 1) * sizeof(O)); if (!rep) { int k = 0; for (int i = 0; i < o; i++) { u[k] = t[i]; u[k].is_set = false; u[k].value.raw = 0; u[k].value_count = 0; if (!(t[i].type == TYPE_POSITIONAL && t[i].name == pn[p - 1])) k++; } u[k] = (O)OPTION_END(); CHECK(go(&a, u, c, av) == ARGUS_ERROR_INVALID_ARGUMENT, "an operand no positional is declared for is rejected"); sx_reach("surplus"); }
}
/* long values, in every spelling, alone and after flags */
void long_value(void) {
  static const int num[] = {63, 64, 127, 128, 129, 254, 255, 256, 257, 258, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 2048, 4094, 4095, 4096, 4097, 8192}; int n = num[sx_choose(ARRLEN(num), "length")], kind = (int)sx_choose(5, "kind"), way = (int)sx_choose(8, "spelling"), c = 0; argus_t a; vf_on_exit = no_exit; if (kind == 3 && n > 1025) sx_end(); if (way > 6 && kind) sx_end();
  O t[] = { OPTION_FLAG('f', "flag"), OPTION_FLAG('g', "glag"), kind == 0 ? OPTION_STRING('v', "val") : kind == 1 ? OPTION_ARRAY_STRING('v', "val") : kind == 2 ? OPTION_MAP_STRING('v', "val") : kind == 3 ? OPTION_INT('v', "val") : OPTION_STRING('v', "val", ENV_VAR("VV")), kind == 0 ? POSITIONAL_STRING("pos", FLAGS(FLAG_OPTIONAL)) : OPTION_INT('z', NULL), OPTION_END() };
  char *e = vf_strset(2, kind == 3 ? "0123456789" : kind == 1 || kind == 2 ? "=xy" : ",=-xy", "ends"), *x = vf_mem((size_t)n + 3), *av[8]; int k = 0; if (kind == 2) { x[k++] = 'k'; x[k++] = '='; } int from = k; x[k++] = kind == 3 ? '0' : e[0]; while (k < from + n - 1) x[k++] = kind == 3 ? '0' : 'x'; x[k++] = e[1]; x[k] = 0; av[c++] = "prog";
  switch (way) { case 0: av[c++] = vf_cat("--val=", x); break; case 1: av[c++] = S("--val"); av[c++] = x; break; case 2: av[c++] = vf_cat("-v", x); break; case 3: av[c++] = S("-v"); av[c++] = x; break; case 4: av[c++] = vf_cat("-fv", x); break; case 5: av[c++] = vf_cat("-fgv", x); break; case 6: if (kind == 4) vf_env("VV", x); else { av[c++] = S("-gfv"); av[c++] = x; } break; default: av[c++] = S("--"); av[c++] = x; } av[c] = 0;
  CHECK(go(&a, t, c, av) == 0, "a long value is accepted in every spelling"); bool two_ = way == 5 || (way == 6 && kind != 4); CHECK(argus_is_set(&a, "flag") == (way == 4 || two_) && argus_is_set(&a, "glag") == two_, "exactly the options given are set");
  if (kind == 3) CHECK(argus_get(&a, "val").as_int64 == e[1] - '0', "a long value has the same effect in every spelling"); else { CHECK(argus_count(&a, way == 7 ? "pos" : "val") == 1, "a long value is one value"); const char *s = kind == 1 ? argus_array_get(&a, "val", 0).as_string : kind == 2 ? argus_map_get(&a, "val", "k").as_string : argus_get(&a, way == 7 ? "pos" : "val").as_string; bool same = s[0] == e[0] && s[n - 1] == e[1]; CHECK(s && strlen(s) == (size_t)n && same, "a long value has the same effect in every spelling"); for (int i = 1; i < n - 1; i++) if (s[i] != 'x') { CHECK(0, "a long value has the same effect in every spelling"); } }
  argus_free(&a); sx_reach("accepted");
}
/* texts that are alike for long: two names, keys or words that differ only after a common beginning, or of which one begins the other, or that differ only at the start */
static const int lens[] = {1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
static char *long_of(const char *head, int n, const char *tail) { size_t h = vf_len(head), t = vf_len(tail); char *r = vf_mem(h + (size_t)n + t + 1); for (size_t i = 0; i < h; i++) r[i] = head[i]; for (int i = 0; i < n; i++) r[h + (size_t)i] = "xyxxz"[i % 5]; for (size_t i = 0; i < t; i++) r[h + (size_t)n + i] = tail[i]; r[h + (size_t)n + t] = 0; return r; }
static void twins(int len, int how, char **p, char **q) { *p = long_of(how == 2 ? "a" : "s", len, how == 0 ? "a" : how == 1 ? "" : "t"); *q = long_of(how == 2 ? "b" : "s", len, how == 0 ? "b" : how == 1 ? "c" : "t"); }
static int length_(void) { return lens[sx_choose(ARRLEN(lens), "length")]; }
void alike_options(void) {
  char *p, *q, *r; int len = length_(), how = (int)sx_choose(3, "difference"), given = (int)sx_choose(4, "given"), swap = (int)sx_choose(2, "order"); twins(len, how, &p, &q); if (swap) { r = p; p = q; q = r; } char *v = vf_strset(1, "0123456789", "digit"); argus_t a; vf_on_exit = no_exit; int64_t x = v[0] - '0';
  O s[] = { OPTION_INT('\0', q, HELP("h"), DEFAULT(77)), OPTION_END() }, t[] = { OPTION_INT('\0', p, HELP("h"), DEFAULT(11)), OPTION_INT('\0', q, HELP("h"), DEFAULT(22)), SUBCOMMAND("cmd", s), OPTION_END() }; O *tt = TAB(t);
  int st = given == 0 ? GO(a, tt, vf_cat("--", vf_cat(p, vf_cat("=", v)))) : given == 1 ? GO(a, tt, vf_cat("--", q), v) : given == 2 ? GO(a, tt, S("cmd"), vf_cat("--", vf_cat(q, vf_cat("=", v)))) : GO(a, tt, S("cmd"), vf_cat("--", p), v);
  if (given == 3) { CHECK(st == ARGUS_ERROR_INVALID_ARGUMENT, "what is not declared is rejected"); sx_reach("unknown"); return; } CHECK(st == 0, "an option named in full is known, however long its name"); sx_reach("known");
  CHECK(argus_get(&a, given == 2 ? vf_cat(".", p) : p).as_int64 == (given == 0 ? x : 11), "a name names the option that has it"); CHECK(argus_get(&a, given == 2 ? vf_cat(".", q) : q).as_int64 == (given == 1 ? x : 22), "a name names the option that has it"); if (given == 2) { CHECK(argus_get(&a, q).as_int64 == x && argus_get(&a, vf_cat("cmd.", q)).as_int64 == x, "a name names the option that has it"); CHECK(argus_get(&a, vf_cat("cmd.", p)).raw == 0 && a.error_code == ARGUS_ERROR_NO_VALUE, "a name that nothing has reads as zero with its status"); }
  argus_get(&a, vf_cat(p, "!")); CHECK(a.error_code == ARGUS_ERROR_NO_VALUE, "a name that nothing has reads as zero with its status"); argus_free(&a);
}
/* a name that goes on after that of an option is not that option */
void alike_unknown(void) {
  int n = (int)sx_choose(4, "name") * 5, len = length_() - 1 + (int)sx_choose(2, "more"), cut = (int)sx_choose(2, "cut"); char *name = long_of("f", n, "g"), *w = cut ? long_of("f", n, "") : vf_cat(name, long_of("", len, vf_strset(1, "gxy", "last"))); argus_t a; vf_on_exit = no_exit; O t[] = { OPTION_FLAG('q', "qq"), OPTION_FLAG('\0', name), OPTION_STRING('s', "ss"), POSITIONAL_STRING("pp", FLAGS(FLAG_OPTIONAL)), OPTION_END() };
  CHECK(GO(a, TAB(t), vf_cat("--", w), S("x")) == ARGUS_ERROR_INVALID_ARGUMENT, "what is not declared is rejected"); sx_reach("unknown");
}
void alike_commands(void) {
  char *p, *q, *r; int len = length_(), how = (int)sx_choose(3, "difference"), given = (int)sx_choose(4, "given"), swap = (int)sx_choose(2, "order"); twins(len, how, &p, &q); if (swap) { r = p; p = q; q = r; } argus_t a; vf_on_exit = no_exit; char *v = vf_strset(1, "0123456789", "digit");
  O s[] = { OPTION_INT('n', "num"), OPTION_END() }, u[] = { OPTION_INT('n', "num"), OPTION_END() }, t[] = { SUBCOMMAND(p, s, ACTION(act0)), OPTION_FLAG('f', "ff"), SUBCOMMAND(q, u, ACTION(act1)), OPTION_END() }; O *tt = TAB(t); char *w = given == 0 ? p : given == 1 ? q : given == 2 ? long_of(how == 2 ? "a" : "s", len, "") : long_of(how == 2 ? "a" : "s", len, how == 2 ? "tt" : "ee"); int st = GO(a, tt, w, S("-n"), v);
  bool is0 = vf_eq(w, p), is1 = vf_eq(w, q); int m = is0 ? 0 : is1 ? 1 : pre(w, p) ? (pre(w, q) ? 2 : 0) : pre(w, q) ? 1 : 3; if (m == 2) { CHECK(st == ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND, "a word that abbreviates several commands is rejected as ambiguous"); sx_reach("ambiguous"); return; } if (m == 3) { CHECK(st == ARGUS_ERROR_INVALID_ARGUMENT, "a word that names no command does not choose one"); sx_reach("none"); return; }
  CHECK(st == 0, "a command named in full or by an unambiguous abbreviation is chosen"); sx_reach("chosen"); CHECK(argus_is_set(&a, vf_cat(".", p)) == (m == 0) && argus_is_set(&a, vf_cat(".", q)) == (m == 1), "exactly the command named is chosen"); CHECK(argus_get(&a, vf_cat(m ? q : p, ".num")).as_int64 == v[0] - '0', "a path names the option of its command"); CHECK(!argus_is_set(&a, vf_cat(m ? p : q, ".num")) && argus_get(&a, vf_cat(m ? p : q, ".num")).raw == 0 && a.error_code == ARGUS_ERROR_NO_VALUE, "a path through a command not chosen names nothing"); CHECK(argus_exec(&a, NULL) == 100 + m && acted[m] == 1 && !acted[!m], "exactly the action of the innermost command runs, once"); argus_free(&a);
}
/* keys and elements */
void alike_keys(void) {
  char *p, *q, *r; int len = length_(), how = (int)sx_choose(3, "difference"), kind = (int)sx_choose(4, "kind"), swap = (int)sx_choose(2, "order"), two_ = (int)sx_choose(2, "apart"); twins(len, how, &p, &q); if (swap) { r = p; p = q; q = r; } char *v = vf_strset(1, "01", "digit"); argus_t a; vf_on_exit = no_exit; bool one = v[0] == '1';
  O t[] = { kind == 0 ? OPTION_MAP_INT('m', "map") : kind == 1 ? OPTION_MAP_STRING('m', "map") : kind == 2 ? OPTION_MAP_FLOAT('m', "map") : OPTION_MAP_BOOL('m', "map"), OPTION_END() }; char *e = vf_cat(p, vf_cat("=", v)), *f = vf_cat(q, one ? "=0" : "=1"); CHECK((two_ ? GO(a, TAB(t), S("-m"), e, vf_cat("--map=", f)) : GO(a, TAB(t), vf_cat("-m", vf_cat(e, vf_cat(",", f))))) == 0, "a map with long keys is accepted");
  CHECK(argus_count(&a, "map") == 2, "a map holds one entry per distinct key"); for (int k = 0; k < 2; k++) { argus_value_t x = argus_map_get(&a, "map", k ? q : p); bool w = one != (k == 1); CHECK(kind == 0 ? x.as_int64 == w : kind == 1 ? x.as_string[0] == '0' + w && !x.as_string[1] : kind == 2 ? x.as_float == (double)w : x.as_bool == w, "a key reads as its own value"); } argus_map_get(&a, "map", long_of("s", len, "other")); CHECK(a.error_code == ARGUS_ERROR_INVALID_KEY, "a key that is not in the map reads as zero with its status"); sx_reach("read"); argus_free(&a);
}
void alike_elements(void) {
  char *p, *q, *r; int len = length_(), how = (int)sx_choose(3, "difference"), kind = (int)sx_choose(4, "kind"), swap = (int)sx_choose(2, "order"); twins(len, how, &p, &q); bool less = strcmp(p, q) < 0; if (swap) { r = p; p = q; q = r; less = !less; } argus_t a; vf_on_exit = no_exit; size_t base; int st;
  O t[] = { OPTION_ARRAY_STRING('c', "col", FLAGS(FLAG_SORTED | FLAG_UNIQUE)), OPTION_MAP_STRING('k', "key", FLAGS(FLAG_SORTED_KEY)), OPTION_MAP_STRING('w', "wal", FLAGS(FLAG_SORTED_VALUE | FLAG_UNIQUE_VALUE)), POSITIONAL_MANY_STRING("pos", FLAGS(FLAG_SORTED | FLAG_UNIQUE | FLAG_OPTIONAL)), OPTION_END() }; O *tt = TAB(t);
  char *av[8]; int c = 0; av[c++] = "prog"; switch (kind) { case 0: av[c++] = vf_cat("-c", vf_cat(p, vf_cat(",", vf_cat(q, vf_cat(",", p))))); break; case 1: av[c++] = S("-k"); av[c++] = vf_cat(p, "=1"); av[c++] = S("-k"); av[c++] = vf_cat(q, "=2"); break; case 2: av[c++] = S("-w"); av[c++] = vf_cat("a=", p); av[c++] = S("-w"); av[c++] = vf_cat("b=", q); av[c++] = S("-w"); av[c++] = vf_cat("c=", p); break; default: av[c++] = p; av[c++] = q; av[c++] = q; av[c++] = p; } av[c] = 0; base = sx_live(); st = go(&a, tt, c, av);
  CHECK(st == 0, "long elements are accepted"); const char *n = kind == 0 ? "col" : kind == 1 ? "key" : kind == 2 ? "wal" : "pos"; CHECK(argus_count(&a, n) == 2, "removing repeats keeps every distinct value"); char *g[2]; argus_map_it_t it = argus_map_it(&a, n); for (int i = 0; i < 2; i++) { if (kind == 1 || kind == 2) { CHECK(argus_map_next(&it), "an iterator visits every element"); g[i] = kind == 1 ? (char *)it.key : it.value.as_string; } else g[i] = argus_array_get(&a, n, (size_t)i).as_string; }
  CHECK(vf_eq(g[0], less ? p : q) && vf_eq(g[1], less ? q : p), "values come in ascending order, none lost"); argus_free(&a); CHECK(sx_live() == base, "after freeing nothing is left"); sx_reach("ordered");
}
void alike_rules(void) {
  char *p, *q, *r; int len = length_(), how = (int)sx_choose(3, "difference"), rel = (int)sx_choose(2, "relation"), swap = (int)sx_choose(2, "order"); twins(len, how, &p, &q); if (swap) { r = p; p = q; q = r; } unsigned give = (unsigned)sx_choose(4, "given"); argus_t a; vf_on_exit = no_exit; const char *l[] = { q, NULL };
  O t[] = { OPTION_FLAG('p', p), OPTION_FLAG('q', q), OPTION_FLAG('x', "x"), OPTION_END() }; if (rel) t[2].conflict = l; else t[2].require = l; char *av[8]; int c = 0; av[c++] = "prog"; av[c++] = S("-x"); if (give & 1) av[c++] = S("-p"); if (give & 2) av[c++] = S("-q"); av[c] = 0; int st = go(&a, TAB(t), c, av); CHECK(st == (rel == !(give & 2) ? 0 : rel ? ARGUS_ERROR_CONFLICTING_OPTIONS : ARGUS_ERROR_MISSING_REQUIRED), "a rule about an option looks at that option"); if (!st) { sx_reach("kept"); argus_free(&a); } else sx_reach("broken");
}
void alike_choices(void) {
  char *p, *q; int len = length_(), how = (int)sx_choose(3, "difference"), w = (int)sx_choose(4, "given"); twins(len, how, &p, &q); argus_t a; vf_on_exit = no_exit; const char *cs[] = { "none", p, "other" }; validator_entry_t e = *(V_CHOICE_STR("a", "b", "c")), *l[] = { &e, NULL }; e.data.choices.as_strings = cs; e.data.choices.count = 3;
  O t[] = { OPTION_STRING('s', "str"), OPTION_END() }; t[0].validators = l; char *v = w == 0 ? p : w == 1 ? q : w == 2 ? vf_cat(p, "x") : long_of(how == 2 ? "a" : "s", len, ""); bool in = vf_eq(v, p); vf_vague = 1; int st = GO(a, TAB(t), S("-s"), v); CHECK(in ? st == 0 : st == ARGUS_ERROR_INVALID_CHOICE, in ? "one of the choices is accepted" : "a value that is none of the choices is rejected"); sx_reach(in ? "in" : "out"); if (!st) argus_free(&a);
}
void alike_names(void) {
  char *p, *q; int len = length_(), how = (int)sx_choose(3, "difference"), what = (int)sx_choose(3, "what"), same = (int)sx_choose(2, "same"); twins(len, how, &p, &q); if (same) q = vf_cat(p, ""); O leaf[] = { HELP_OPTION(), OPTION_END() }; O t[] = { HELP_OPTION(), OPTION_FLAG('p', p, HELP("h")), OPTION_FLAG('x', "x", HELP("h")), OPTION_FLAG('q', q, HELP("h")), OPTION_END() };
  const char *l[] = { q, NULL }; if (what == 1) { t[1] = (O)SUBCOMMAND(p, leaf, HELP("h")); t[2] = (O)SUBCOMMAND("x", leaf, HELP("h")); t[3] = (O)SUBCOMMAND(q, leaf, HELP("h")); } if (what == 2) { t[2].require = l; t[3] = (O)OPTION_FLAG('q', "qq", HELP("h")); }
  want = what == 2 ? same : !same; if (what == 1 && same) sx_end(); vf_capture = 1; vf_on_exit = refused; argus_t a = _argus_init_validate(TAB(t), "prog", "1", true); CHECK(want, "a table that breaks a rule is refused"); CHECK(silent(), "an accepted table is not commented"); (void)a; sx_reach("accepted");
}
/* collections larger than any table or counter of two bytes */
void huge(void) {
  static const int num[] = {1025, 4097, 5000, 8193, 66000}; int kind = (int)sx_choose(5, "kind"), n = num[sx_choose(kind == 4 ? 1 : 5, "elements")], c = 0; argus_t a; vf_on_exit = no_exit; char *d = vf_strset(1, "0123456789", "digit"), **av = vf_mem((size_t)(kind == 3 ? n + 4 : 4) * sizeof *av), *x = vf_mem((size_t)n * 6 + 16), *q = x; av[c++] = "prog";
  O t[] = { kind == 0 || kind == 2 ? OPTION_ARRAY_INT('c', "col") : kind == 1 ? OPTION_ARRAY_STRING('c', "col") : kind == 3 ? POSITIONAL_MANY_STRING("col") : OPTION_MAP_INT('c', "col"), OPTION_END() }; size_t base;
  if (kind == 0) { int64_t z = (int64_t)n + 9; char b[8]; int k = 0; for (; z; z /= 10) b[k++] = (char)('0' + z % 10); *q++ = '-'; *q++ = 'c'; *q++ = '1'; *q++ = '0'; *q++ = '-'; while (k) *q++ = b[--k]; *q = 0; av[c++] = x; }
  else if (kind == 3) { for (int i = 0; i < n; i++) av[c++] = i == n - 1 ? d : "x"; }
  else { *q++ = '-'; *q++ = 'c'; for (int i = 0; i < n; i++) { if (kind == 4) { *q++ = (char)('a' + i % 26); *q++ = (char)('a' + i / 26 % 26); *q++ = (char)('A' + i / 676); *q++ = '='; } *q++ = i == n - 1 ? d[0] : (char)('0' + i % 7); if (i < n - 1) *q++ = ','; } *q = 0; av[c++] = x; }
  av[c] = 0; base = sx_live(); CHECK(go(&a, t, c, av) == 0, "a large collection is accepted"); CHECK(argus_count(&a, "col") == (size_t)n, "no element of a large collection is lost"); if (kind != 4) { argus_array_it_t it = argus_array_it(&a, "col"); int s = 0; while (argus_array_next(&it)) { if (kind == 0) CHECK(it.value.as_int64 == s + 10, "every element keeps its value"); s++; if (s > n) break; } CHECK(s == n, "an iterator visits every element"); argus_value_t v = argus_array_get(&a, "col", (size_t)n - 1); CHECK(kind == 0 ? v.as_int64 == n + 9 : kind == 2 ? v.as_int64 == d[0] - '0' : v.as_string[0] == d[0] && !v.as_string[1], "every element keeps its value"); } else { argus_map_it_t it = argus_map_it(&a, "col"); int s = 0; while (argus_map_next(&it) && s <= n) s++; CHECK(s == n, "an iterator visits every element"); }
  argus_free(&a); CHECK(sx_live() == base, "after freeing nothing is left"); sx_reach("huge");
}
