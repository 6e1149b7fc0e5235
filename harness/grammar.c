/* Spelling, rejection, commands, paths. */
#include "common.h"
#include <string.h>
/* ---- P04: one meaning per spelling */
static O types[] = { OPTION_FLAG('q', "quiet"), OPTION_FLAG('r', "raw"), OPTION_STRING('s', "str"), OPTION_INT('i', "int"), OPTION_FLOAT('f', "flt"), OPTION_BOOL('b', "boo"),
  OPTION_ARRAY_STRING('S', "strs"), OPTION_ARRAY_INT('I', "ints"), OPTION_ARRAY_FLOAT('F', "flts"), OPTION_MAP_STRING('M', "ms"), OPTION_MAP_INT('N', "mi"), OPTION_MAP_FLOAT('G', "mf"), OPTION_MAP_BOOL('B', "mb"),
  POSITIONAL_STRING("rest", FLAGS(FLAG_OPTIONAL)), OPTION_END() };
#define NT 11
static const struct { char c; const char *l; } T[NT] = { {'s', "str"}, {'i', "int"}, {'f', "flt"}, {'b', "boo"}, {'S', "strs"}, {'I', "ints"}, {'F', "flts"}, {'M', "ms"}, {'N', "mi"}, {'G', "mf"}, {'B', "mb"} };
static bool same8(argus_value_t a, argus_value_t b) { return a.raw == b.raw; }
static void same(argus_t *a, argus_t *b, int t) {
  const char *nm = T[t].l;
  CHECK(argus_is_set(a, nm) == argus_is_set(b, nm) && argus_count(a, nm) == argus_count(b, nm), "two spellings of an option set it alike");
  argus_value_t x = argus_get(a, nm), y = argus_get(b, nm);
  if (t == 0) CHECK(vf_eq(x.as_string, y.as_string), "two spellings give the same text");
  else if (t == 1) CHECK(x.as_int64 == y.as_int64, "two spellings give the same integer");
  else if (t == 2) CHECK(same8(x, y), "two spellings give the same number");
  else if (t == 3) CHECK(x.as_bool == y.as_bool, "two spellings give the same boolean");
  else if (t == 4) { for (size_t i = 0; i < argus_count(a, nm); i++) CHECK(vf_eq(argus_array_get(a, nm, i).as_string, argus_array_get(b, nm, i).as_string), "two spellings give the same elements"); }
  else if (t < 7) { for (size_t i = 0; i < argus_count(a, nm); i++) CHECK(same8(argus_array_get(a, nm, i), argus_array_get(b, nm, i)), "two spellings give the same elements"); }
  else { argus_map_it_t p = argus_map_it(a, nm), q = argus_map_it(b, nm); while (argus_map_next(&p)) { CHECK(argus_map_next(&q), "two spellings give the same entries"); CHECK(vf_eq(p.key, q.key), "two spellings give the same keys"); if (t == 7) CHECK(vf_eq(p.value.as_string, q.value.as_string), "two spellings give the same entries"); else if (t == 10) CHECK(p.value.as_bool == q.value.as_bool, "two spellings give the same entries"); else CHECK(same8(p.value, q.value), "two spellings give the same entries"); } }
}
static int spell(argus_t *a, int way, int t, char *v, bool after) {
  char sh[3] = { '-', T[t].c, 0 }, bu[4] = { '-', 'q', T[t].c, 0 }; char *s = S(sh), *l = vf_cat("--", T[t].l), *av[8]; int n = 0;
  av[n++] = "prog";
  if (way < 4) { av[n++] = S("-q"); }
  if (way == 0) { av[n++] = l; av[n++] = v; }
  if (way == 1) av[n++] = vf_cat(vf_cat(l, "="), v);
  if (way == 2) { av[n++] = s; av[n++] = v; }
  if (way == 3) av[n++] = vf_cat(s, v);
  if (way == 4) { av[n++] = S(bu); av[n++] = v; }
  if (way == 5) av[n++] = vf_cat(S(bu), v);
  if (after) av[n++] = S("-r");
  av[n] = 0; return go(a, TAB(types), n, av);
}
static void spellings(int t, char *v) {
  int way = 1 + (int)sx_choose(5, "spelling"); if (!*v && (way == 3 || way == 5)) sx_end(); /* nothing to attach */
  argus_t a, b; vf_on_exit = no_exit; int x = spell(&a, 0, t, v, true), y = spell(&b, way, t, v, true);
  CHECK(x == y, "two spellings of the same options are both accepted or rejected alike");
  if (x) { sx_reach("rejected"); return; }
  sx_reach("accepted"); CHECK(argus_is_set(&b, "quiet") && argus_is_set(&b, "raw"), "what surrounds a value keeps its meaning"); CHECK(!argus_is_set(&b, "rest"), "a value is not also taken as an operand"); same(&a, &b, t);
}
void spell_str(void) { spellings(sx_choose(2, "kind") ? 4 : 0, vf_strmax(Q(6, 8), "value")); }
void spell_num(void) { int t = 1 + (int)sx_choose(3, "type"); spellings(t, vf_strmax(t == 2 ? Q(3, 4) : 4, "value")); }
void spell_list(void) { int t = 5 + (int)sx_choose(2, "type"); spellings(t, vf_strset(1 + sx_choose(Q(4, 5), "length"), "13,-.=", "value")); }
void spell_map(void) { int t = 7 + (int)sx_choose(4, "type"); spellings(t, vf_strset(1 + sx_choose(Q(6, 7), "length"), "k1=,-", "value")); }
/* flags bundled in any way mean the flags given one by one */
void bundle(void) {
  O t[] = { OPTION_FLAG('a', "aa"), OPTION_FLAG('b', NULL), OPTION_FLAG('c', "cc"), OPTION_STRING('s', "str"), OPTION_END() };
  size_t n = 1 + sx_choose(Q(5, 6), "flags"); char *v = vf_strset(n, "abc", "letters"); unsigned cuts = (unsigned)sx_choose(1u << (n - 1), "cuts"); bool tail = sx_choose(2, "tail");
  char *x[10], *y[10]; int p = 0, q = 0; x[p++] = y[q++] = "prog";
  size_t at = 0; for (size_t i = 0; i < n; i++) { char one[3] = { '-', v[i], 0 }; char *o = vf_mem(3); o[0] = one[0]; o[1] = one[1]; o[2] = 0; x[p++] = o; if (i + 1 == n || (cuts >> i & 1)) { char *w = vf_mem(i - at + 3); w[0] = '-'; for (size_t k = at; k <= i; k++) w[k - at + 1] = v[k]; w[i - at + 2] = 0; y[q++] = w; at = i + 1; } }
  if (tail) { x[p++] = S("-s"); x[p++] = S("t"); y[q - 1] = vf_cat(y[q - 1], "st"); }
  x[p] = y[q] = 0; argus_t a, b; int r = go(&a, TAB(t), p, x), s = go(&b, TAB(t), q, y);
  CHECK(r == 0 && s == 0, "flags may be bundled"); 
  CHECK(argus_is_set(&a, "aa") == argus_is_set(&b, "aa") && argus_is_set(&a, "b") == argus_is_set(&b, "b") && argus_is_set(&a, "cc") == argus_is_set(&b, "cc") && argus_is_set(&a, "str") == argus_is_set(&b, "str"), "a bundle sets the flags it spells");
  CHECK(argus_is_set(&b, "aa") == vf_in('a', v) && argus_is_set(&b, "b") == vf_in('b', v) && argus_is_set(&b, "cc") == vf_in('c', v), "a bundle sets the flags it spells, no others");
  if (tail) CHECK(vf_eq(argus_get(&b, "str").as_string, "t"), "the rest of a bundle is the value of its last option");
}
/* where an option stands relative to operands does not matter */
void order(void) {
  static O t[] = { OPTION_FLAG('a', "aa"), OPTION_STRING('s', "str"), OPTION_INT('i', "int"), POSITIONAL_STRING("p"), POSITIONAL_STRING("q", FLAGS(FLAG_OPTIONAL)), OPTION_END() };
  char *v = vf_strmax(Q(3, 4), "value"), *w = vf_strmax(Q(3, 4), "operand"), *d = vf_strset(2, "123", "digits"); sx_assume(w[0] != '-');
  char *unit[4][2] = { { S("-a"), 0 }, { S("--str"), v }, { vf_cat("-i", d), 0 }, { w, 0 } }; bool used[4] = {0}; char *av[12]; int n = 0; av[n++] = "prog";
  for (int i = 0; i < 4; i++) { int k = (int)sx_choose(4, "next"); if (used[k]) sx_assume(false); used[k] = true; av[n++] = unit[k][0]; if (unit[k][1]) av[n++] = unit[k][1]; }
  av[n] = 0; argus_t a; int st = go(&a, TAB(t), n, av);
  CHECK(st == 0, "options and operands mix in any order"); CHECK(argus_is_set(&a, "aa") && vf_eq(argus_get(&a, "str").as_string, v) && argus_get(&a, "int").as_int64 == (d[0] - '0') * 10 + (d[1] - '0') && vf_eq(argus_get(&a, "p").as_string, w) && !argus_is_set(&a, "q"), "the order of options and operands does not change what they mean");
}
/* ---- P06: what no declaration accepts is rejected */
static O known[] = { HELP_OPTION(), OPTION_FLAG('v', "verbose"), OPTION_FLAG('x', "ver"), OPTION_STRING('o', "out-file"), OPTION_INT('n', NULL), OPTION_FLAG(0, "dry"), OPTION_STRING(0, "v"), POSITIONAL_STRING("one", FLAGS(FLAG_OPTIONAL)), POSITIONAL_STRING("two", FLAGS(FLAG_OPTIONAL)), OPTION_END() };
static int around(argus_t *a, O *o, int pos, char **bad, int nb) { /* filler that is fine, with the offending words in it */
  char *fill[] = { S("-v"), S("--out-file"), S("x"), S("w") }; char *av[16]; int n = 0; av[n++] = "prog";
  for (int i = 0; i <= 3; i++) { if (i == pos) for (int k = 0; k < nb; k++) av[n++] = bad[k]; if (i == 0) av[n++] = fill[0]; else if (i == 1) { av[n++] = fill[1]; av[n++] = fill[2]; } else if (i == 2) av[n++] = fill[3]; }
  av[n] = 0; return go(a, o, n, av);
}
static bool longname(const char *s) { static const char *const k[] = {"help", "verbose", "ver", "out-file", "dry", "v"}; for (int i = 0; i < 6; i++) { const char *p = s, *q = k[i]; while (*q && *p == *q) p++, q++; if (!*q && (!*p || *p == '=')) return true; } return false; }
void unknown_long(void) {
  argus_t a; char *v = vf_strmax(Q(8, 10), "name"); vf_on_exit = no_exit; sx_assume(v[0]); if (longname(v)) { sx_reach("known"); sx_end(); }
  char *bad[1] = { vf_cat("--", v) }; int st = around(&a, TAB(known), (int)sx_choose(4, "position"), bad, 1);
  CHECK(st == ARGUS_ERROR_INVALID_ARGUMENT, "a long option that is not declared is rejected");
}
void unknown_short(void) {
  argus_t a; char *v = vf_strmax(Q(3, 4), "letters"), c = 0; vf_on_exit = no_exit; sx_assume(v[0]); sx_assume(v[0] != '-');
  bool bad = false; for (char *p = v; *p; p++) { if (*p == 'v' || *p == 'x') continue; if (*p == 'o' || *p == 'n' || *p == 'h') break; bad = true; break; }
  if (!bad) sx_end();
  char *b[1] = { vf_cat("-", v) }; int st = around(&a, TAB(known), (int)sx_choose(4, "position"), b, 1); (void)c;
  CHECK(st == ARGUS_ERROR_INVALID_ARGUMENT, "a short option that is not declared is rejected, alone or in a bundle");
}
void missing_value(void) {
  argus_t a; int t = (int)sx_choose(NT, "type"), way = (int)sx_choose(3, "spelling"); char *pre = vf_strmax(Q(2, 3), "before"); sx_assume(pre[0] != '-' || !pre[1]);
  char sh[3] = { '-', T[t].c, 0 }, bu[4] = { '-', 'q', T[t].c, 0 };
  int st = GO(a, TAB(types), pre, S("-r"), way == 0 ? S(sh) : way == 1 ? vf_cat("--", T[t].l) : S(bu));
  CHECK(st == ARGUS_ERROR_MISSING_VALUE, "an option left without its value is rejected");
}
void surplus(void) {
  int decl = (int)sx_choose(4, "declared"), n = (int)sx_choose(6, "given"), dash = (int)sx_choose(7, "separator"); O t[6]; int k = 0; static const char *const nm[] = {"p0", "p1", "p2"};
  t[k++] = (O)OPTION_FLAG('a', "aa"); for (int i = 0; i < decl; i++) t[k++] = (O)POSITIONAL_STRING(nm[i]); t[k] = (O)OPTION_END();
  char *av[16], *w[8]; int c = 0; av[c++] = "prog"; if (dash > n) dash = -1;
  for (int i = 0; i < n; i++) { w[i] = vf_strmax(2, "operand"); if (dash < 0 || i < dash) sx_assume(w[i][0] != '-' || !w[i][1]); if (i == dash) av[c++] = S("--"); av[c++] = w[i]; }
  av[c] = 0; argus_t a; int st = go(&a, TAB(t), c, av);
  if (n > decl) { sx_reach("surplus"); CHECK(st == ARGUS_ERROR_INVALID_ARGUMENT, "an operand no positional is left for is rejected"); }
  else if (n < decl) { sx_reach("missing"); CHECK(st == ARGUS_ERROR_MISSING_REQUIRED, "a required positional left without an operand is rejected"); }
  else { sx_reach("exact"); CHECK(st == 0, "one operand per positional is accepted"); for (int i = 0; i < n; i++) CHECK(vf_eq(argus_get(&a, nm[i]).as_string, w[i]), "operands fill the positionals in order"); }
}
void flag_value(void) {
  argus_t a; char *v = vf_strmax(Q(4, 6), "value"); static const char *const f[] = {"--verbose=", "--ver=", "--dry="}; char *bad[1] = { vf_cat(f[sx_choose(3, "flag")], v) }; vf_on_exit = no_exit;
  CHECK(around(&a, TAB(known), (int)sx_choose(4, "position"), bad, 1) == ARGUS_ERROR_INVALID_ARGUMENT, "a value given to a flag is rejected");
}
void scope(void) { /* each command accepts its own options only */
  O sub[] = { OPTION_FLAG('s', "sub"), OPTION_FLAG('c', "both"), OPTION_END() }, root[] = { OPTION_FLAG('r', "root"), OPTION_FLAG('b', "both"), SUBCOMMAND("cmd", sub), OPTION_END() };
  argus_t a; char *x = vf_strmax(Q(6, 7), "before"), *y = vf_strmax(Q(6, 7), "after"); vf_on_exit = no_exit;
  sx_assume(x[0] == '-' && y[0] == '-' && x[1] && y[1]); sx_assume(x[1] != '-' || x[2]); sx_assume(y[1] != '-' || y[2]);
  int st = GO(a, root, x, S("cmd"), y); bool okx = false, oky = false, lx = x[1] == '-', ly = y[1] == '-';
  if (lx) okx = vf_eq(x + 2, "root") || vf_eq(x + 2, "both"); else { okx = true; for (char *p = x + 1; *p; p++) if (*p != 'r' && *p != 'b') { okx = false; break; } }
  if (ly) oky = vf_eq(y + 2, "sub") || vf_eq(y + 2, "both"); else { oky = true; for (char *p = y + 1; *p; p++) if (*p != 's' && *p != 'c') { oky = false; break; } }
  if (!okx || !oky) { sx_reach("foreign"); CHECK(st == ARGUS_ERROR_INVALID_ARGUMENT, "an option of another command level is rejected"); return; }
  sx_reach("own"); CHECK(st == 0, "each command level accepts its own options");
  CHECK(argus_is_set(&a, ".both") == (lx ? x[2] == 'b' : vf_in('b', x + 1)) && argus_is_set(&a, "cmd.both") == (ly ? y[2] == 'b' : vf_in('c', y + 1)), "options of the same name at two levels are distinct");
}
/* ---- P07: which command a word names */
static bool pre(const char *w, const char *n) { while (*w) { if (*w != *n) return false; w++; n++; } return true; }
static int resolve(const char *w, const char *const *n, int k) { /* index, -1 none, -2 several */
  for (int i = 0; i < k; i++) if (vf_eq(w, n[i])) return i;
  int r = -1; for (int i = 0; i < k; i++) if (pre(w, n[i])) { if (r >= 0) return -2; r = i; }
  return r;
}
void command1(void) {
  static const char *const nm[] = {"start", "st", "stop", "status", "run"}; static O leaf[] = { OPTION_FLAG('f', "flag"), OPTION_END() };
  O *l[5]; for (int i = 0; i < 5; i++) l[i] = TAB(leaf);
  bool pos = sx_choose(2, "positional"), opts = sx_choose(2, "options"), deep = sx_choose(2, "dashes"), hid = pos && opts ? 0 : sx_choose(2, "hidden");
  O t[9]; int k = 0; t[k++] = (O)OPTION_STRING('s', "str"); for (int i = 0; i < 5; i++) { t[k] = (O)SUBCOMMAND(nm[i], l[i], HELP("h")); if (hid && i >= 2) t[k].flags |= FLAG_HIDDEN; k++; } if (pos) t[k++] = (O)POSITIONAL_STRING("pos", FLAGS(FLAG_OPTIONAL)); t[k] = (O)OPTION_END();
  argus_t a; char *w = vf_strmax(Q(7, 8), "word"), *av[8]; int n = 0; sx_assume(w[0] && (w[0] != '-' || !w[1])); vf_on_exit = no_exit;
  av[n++] = "prog"; if (opts) { av[n++] = S("--str"); av[n++] = S("run"); } if (deep) av[n++] = S("--"); av[n++] = w; if (!deep) av[n++] = S("-f"); av[n] = 0;
  int st = go(&a, TAB(t), n, av), r = deep ? -1 : resolve(w, nm, 5);
  if (deep) { sx_reach("operand"); CHECK(st == (pos ? 0 : ARGUS_ERROR_INVALID_ARGUMENT), "after -- a word is an operand, not a command"); if (pos) { CHECK(vf_eq(argus_get(&a, "pos").as_string, w), "after -- a word is an operand"); CHECK(!argus_has_command(&a), "after -- no command is chosen"); } return; }
  if (r == -2) { sx_reach("ambiguous"); CHECK(st == ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND, "a word that abbreviates several commands is rejected as ambiguous"); return; }
  if (r == -1) { sx_reach("none"); CHECK(st == ARGUS_ERROR_INVALID_ARGUMENT, "a word that names no command does not choose one"); return; } /* -f is not known at the root */
  sx_reach("chosen"); CHECK(st == 0, "a command named in full or by an unambiguous abbreviation is chosen"); CHECK(argus_has_command(&a), "the chosen command is recorded");
  for (int i = 0; i < 5; i++) CHECK(argus_is_set(&a, nm[i]) == (i == r), "exactly the command named is chosen");
  CHECK(argus_is_set(&a, "flag"), "what follows a command is read by its own options"); CHECK(argus_is_set(&a, vf_cat(nm[r], ".flag")), "what follows a command is read by its own options");
  if (opts) CHECK(vf_eq(argus_get(&a, "str").as_string, "run"), "the value of an option is not taken as a command");
}
void command2(void) {
  static const char *const outer[] = {"remote", "reset"}, *const inner[] = {"add", "addr", "rm"}; static O leaf[] = { OPTION_INT('n', "num"), POSITIONAL_STRING("arg", FLAGS(FLAG_OPTIONAL)), OPTION_END() };
  O *lf[6], *sub[2]; for (int i = 0; i < 6; i++) lf[i] = TAB(leaf);
  for (int j = 0; j < 2; j++) { O s[] = { OPTION_FLAG('v', "verbose"), SUBCOMMAND(inner[0], lf[3 * j], HELP("h")), SUBCOMMAND(inner[1], lf[3 * j + 1], HELP("h")), SUBCOMMAND(inner[2], lf[3 * j + 2], HELP("h")), OPTION_END() }; sub[j] = TAB(s); }
  O t[] = { OPTION_FLAG('v', "verbose"), SUBCOMMAND(outer[0], sub[0], HELP("h")), SUBCOMMAND(outer[1], sub[1], HELP("h")), OPTION_END() };
  argus_t a; char *x = vf_strmax(Q(7, 8), "first"), *y = vf_strmax(Q(5, 6), "second"), *d = vf_strset(1, "0123456789", "digit"); bool v1 = sx_choose(2, "v1"), v2 = sx_choose(2, "v2"), last = sx_choose(2, "operand"); char *av[10]; int n = 0;
  sx_assume(x[0] && x[0] != '-' && y[0] && y[0] != '-'); vf_on_exit = no_exit;
  av[n++] = "prog"; if (v1) av[n++] = S("-v"); av[n++] = x; if (v2) av[n++] = S("--verbose"); av[n++] = y; av[n++] = S("-n"); av[n++] = d; if (last) av[n++] = S("add"); av[n] = 0;
  int st = go(&a, TAB(t), n, av), r = resolve(x, outer, 2), q = resolve(y, inner, 3);
  if (r == -2 || (r >= 0 && q == -2)) { CHECK(st == ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND, "an ambiguous abbreviation is rejected at every level"); return; }
  if (r == -1 || q == -1) { CHECK(st == ARGUS_ERROR_INVALID_ARGUMENT, "a word that names no command is rejected at every level"); return; }
  sx_reach("chosen"); CHECK(st == 0, "nested commands are chosen by name or abbreviation");
  char *path = vf_cat(vf_cat(outer[r], "."), inner[q]);
  CHECK(argus_get(&a, vf_cat(path, ".num")).as_int64 == d[0] - '0', "options after nested commands belong to the innermost");
  CHECK(argus_is_set(&a, ".verbose") == v1 && argus_is_set(&a, vf_cat(outer[r], ".verbose")) == v2, "each level keeps its own options");
  for (int i = 0; i < 6; i++) CHECK(lf[i][0].is_set == (i == 3 * r + q), "options of commands not chosen are untouched");
  if (last) CHECK(vf_eq(argus_get(&a, "arg").as_string, "add"), "a word after the innermost command is its operand");
}
/* ---- P08: nesting is bounded */
void nesting(void) {
  int n = (int)sx_choose(Q(13, 20), "levels"), tail = (int)sx_choose(3, "tail"); char *w = vf_strset((size_t)n, "ab", "words"), *nm[24], *text[24];
  /* level k offers the commands a and b, both leading to level k+1, and an option of its own */
  O *lv[24]; for (int k = n; k >= 0; k--) { char q[3] = { 'k', (char)('a' + k), 0 }; nm[k] = S(q); O t[] = { OPTION_FLAG('f', "flag"), OPTION_STRING('t', NULL), SUBCOMMAND("a", NULL), SUBCOMMAND("b", NULL), OPTION_END() }; t[1].name = t[1].lname = nm[k]; t[2].sub_options = t[3].sub_options = k < n ? lv[k + 1] : NULL; if (k == n) t[2] = (O)OPTION_END(); lv[k] = TAB(t); }
  char *av[64]; int c = 0; av[c++] = "prog"; bool given = sx_choose(2, "texts"); for (int i = 0; i <= n; i++) { char q[4] = { '-', 't', (char)('A' + i), 0 }; text[i] = S(q) + 2; if (given) av[c++] = text[i] - 2; if (i < n) { char *o = vf_mem(2); o[0] = w[i]; o[1] = 0; av[c++] = o; } } if (tail == 1) av[c++] = S("-f"); if (tail == 2) av[c++] = S("--flag"); av[c] = 0; vf_on_exit = no_exit;
  argus_t a; int st = go(&a, lv[0], c, av);
  if (n > MAX_SUBCOMMAND_DEPTH) { sx_reach("too deep"); CHECK(st == ARGUS_ERROR_STACK_OVERFLOW, "commands nested beyond the limit are rejected"); CHECK(a.subcommand_depth <= MAX_SUBCOMMAND_DEPTH, "the recorded depth stays within the limit"); return; }
  CHECK(st == 0, "commands nested up to the limit are accepted"); CHECK(argus_has_command(&a) == (n > 0) && a.subcommand_depth == (size_t)n, "every command given is entered, the last word included"); if (n == MAX_SUBCOMMAND_DEPTH) sx_reach("limit");
  for (int k = 0; k <= n; k++) CHECK(lv[k][0].is_set == (k == n && tail), "the innermost command reads the rest");
  char *path = S(""); for (int k = 0; k <= n; k++) {
    char *full = vf_cat(k ? path : ".", nm[k]); CHECK(argus_is_set(&a, nm[k]) == given && argus_is_set(&a, full) == given && argus_count(&a, nm[k]) == given && argus_count(&a, full) == given, "an option of any level is found by its name and by its path"); if (given) CHECK(vf_eq(argus_get(&a, nm[k]).as_string, text[k]) && vf_eq(argus_get(&a, full).as_string, text[k]), "an option of any level is found by its name and by its path");
    CHECK(argus_is_set(&a, vf_cat(k ? path : ".", "flag")) == (k == n && tail), "the same name at every level is told apart by its path"); if (k) { char *wrong = vf_cat(path, nm[k - 1]); CHECK(!argus_is_set(&a, wrong) && argus_get(&a, wrong).raw == 0, "a level does not answer for another"); }
    if (k < n) { size_t z = vf_len(path); char *m = vf_mem(z + 3); for (size_t i = 0; i < z; i++) m[i] = path[i]; m[z] = w[k]; m[z + 1] = '.'; m[z + 2] = 0; path = m; }
  }
  CHECK(argus_is_set(&a, "flag") == (tail > 0), "a plain name is asked of the innermost command first"); argus_free(&a);
}
/* a command table that refers to itself */
void nesting_self(void) {
  O *t = vf_mem(3 * sizeof(O)); t[0] = (O)OPTION_FLAG('f', "flag"); t[1] = (O)SUBCOMMAND("me", NULL); t[1].sub_options = t; t[2] = (O)OPTION_END();
  int n = (int)sx_choose(Q(13, 20), "levels"); char *av[32]; int c = 0; av[c++] = "prog"; for (int i = 0; i < n; i++) av[c++] = sx_choose(2, "short") ? S("m") : S("me"); av[c] = 0; vf_on_exit = no_exit; if (n > 4) for (int i = 4; i < n; i++) sx_assume(av[i + 1][1] == 'e');
  argus_t a; int st = go(&a, t, c, av); CHECK(st == (n > MAX_SUBCOMMAND_DEPTH ? ARGUS_ERROR_STACK_OVERFLOW : 0), "the limit on nesting holds whatever the tables"); if (!st) CHECK(a.subcommand_depth == (size_t)n && (!n || a.subcommand_stack[n - 1] == &t[1]), "every command given is entered, the last word included");
}
/* ---- P09: paths */
struct ent { const char *n; O *o; };
void paths(void) {
  O lb[] = { OPTION_STRING('v', "v"), OPTION_STRING('z', "z"), OPTION_END() }, *pb = TAB(lb);
  O la[] = { OPTION_STRING('v', "v"), OPTION_STRING('y', "yy"), SUBCOMMAND("b", pb), OPTION_END() }, *pa = TAB(la);
  O lc[] = { OPTION_STRING('v', "v"), OPTION_STRING('w', "w"), OPTION_END() }, *pc = TAB(lc);
  O lr[] = { OPTION_STRING('v', "v"), OPTION_STRING('x', "x"), OPTION_STRING('y', "yy"), SUBCOMMAND("ab", pc), SUBCOMMAND("a", pa), OPTION_END() }, *pr = TAB(lr);
  int sel = (int)sx_choose(4, "commands"); argus_t a; char *av[16]; int c = 0; av[c++] = "prog"; /* none, a, a b, ab */
  av[c++] = S("-vR"); av[c++] = S("-xX"); if (sel == 1 || sel == 2) { av[c++] = S("a"); av[c++] = S("-vA"); av[c++] = S("-yY"); } if (sel == 2) { av[c++] = S("b"); av[c++] = S("-vB"); av[c++] = S("-zZ"); } if (sel == 3) { av[c++] = S("ab"); av[c++] = S("-vC"); av[c++] = S("-wW"); }
  av[c] = 0; CHECK(go(&a, pr, c, av) == 0, "the commands are accepted");
  char *p = vf_strmax(Q(6, 7), "path");
  O *chain[3] = { pr, sel == 1 || sel == 2 ? pa : sel == 3 ? pc : 0, sel == 2 ? pb : 0 }; const char *nm[2] = { sel == 3 ? "ab" : "a", "b" }; int depth = sel == 0 ? 0 : sel == 2 ? 2 : 1; O *want = 0;
#define FIND(tab, nm_) ({ O *r_ = 0; for (O *q_ = (tab); q_->type != TYPE_NONE; q_++) if (vf_eq(q_->name, (nm_))) { r_ = q_; break; } r_; })
  int dots = 0; for (char *q = p; *q; q++) if (*q == '.') dots++;
  if (!dots) { for (int i = depth; i >= 0 && !want; i--) want = FIND(chain[i], p); }
  else if (p[0] == '.') want = FIND(pr, p + 1);
  else if (dots <= depth) { char *q = p; int i = 0; bool ok = true; for (; i < dots && ok; i++) { const char *m = nm[i]; while (*q != '.' && *m && *q == *m) q++, m++; if (*q != '.' || *m) ok = false; q++; } if (ok) want = FIND(chain[dots], q); }
  bool set = argus_is_set(&a, p); argus_value_t v = argus_get(&a, p); int ec = a.error_code; size_t n = argus_count(&a, p);
  if (!want) { sx_reach("nothing"); CHECK(!set && n == 0 && v.raw == 0, "a path that names nothing reads as nothing"); CHECK(ec == ARGUS_ERROR_NO_VALUE, "a path that names nothing is reported"); return; }
  sx_reach("found"); if (dots) sx_reach("dotted");
  CHECK(ec == 0, "a path that names an option finds it"); CHECK(set == want->is_set && n == want->value_count, "a path reads the option it names"); if (want->type == TYPE_OPTION) CHECK(v.as_string == want->value.as_string, "a path reads the value of the option it names"); else { sx_reach("command"); CHECK(set == (want == &pr[4] ? sel == 1 || sel == 2 : want == &pr[3] ? sel == 3 : sel == 2), "a command reads as set exactly when it was given"); }
}
/* longer chains of commands, and names that are themselves commands' */
void paths_deep(void) {
  int n = (int)sx_choose(Q(5, 6), "levels"); char *w = vf_strset((size_t)n, "ab", "words"); O *lv[8]; char *text[8], *av[20]; int c = 0; av[c++] = "prog"; 
  for (int k = n; k >= 0; k--) { O t[] = { OPTION_STRING('v', "v"), OPTION_STRING('o', NULL), OPTION_STRING('x', "a"), SUBCOMMAND("a", NULL), SUBCOMMAND("b", NULL), OPTION_END() }; char q[3] = { 'o', (char)('0' + k), 0 }; t[1].name = t[1].lname = S(q); if (k) t[2] = t[3], t[2].name = "ba"; if (k < n) t[3].sub_options = t[4].sub_options = lv[k + 1]; else t[3] = (O)OPTION_END(); if (k && k == n) t[2] = (O)OPTION_END(); if (k && k < n) t[2].sub_options = lv[n]; lv[k] = TAB(t); }
  for (int k = 0; k <= n; k++) { char q[4] = { '-', 'v', (char)('A' + k), 0 }; text[k] = S(q) + 2; if (k != 1) av[c++] = text[k] - 2; q[1] = 'o'; av[c++] = S(q); if (k < n) { char *m = vf_mem(2); m[0] = w[k]; m[1] = 0; av[c++] = m; } } av[c] = 0; argus_t a; CHECK(go(&a, lv[0], c, av) == 0, "the commands are accepted");
  char *p = vf_strset(1 + sx_choose(Q(9, 11), "length"), "abv.o2", "path"); O *want = 0; int dots = 0; for (char *q = p; *q; q++) if (*q == '.') dots++;
#define FINDO(tab, nm_) ({ O *r_ = 0; for (O *q_ = (tab); q_->type != TYPE_NONE; q_++) if (q_->type != TYPE_SUBCOMMAND && vf_eq(q_->name, (nm_))) { r_ = q_; break; } r_; })
#define FINDC(tab, nm_) ({ O *r_ = 0; for (O *q_ = (tab); q_->type != TYPE_NONE; q_++) if (vf_eq(q_->name, (nm_))) { r_ = q_; break; } r_; })
  if (!dots) { for (int i = n; i >= 0 && !want; i--) want = FINDC(lv[i], p); } else if (p[0] == '.') { if (dots == 1) want = FINDC(lv[0], p + 1); } else if (dots <= n) { char *q = p; bool ok = true; for (int i = 0; i < dots && ok; i++) { ok = q[0] == w[i] && q[1] == '.'; q += 2; } if (ok) want = FINDC(lv[dots], q); }
  bool cm = want && want->type == TYPE_SUBCOMMAND, given = false; if (cm) { for (int k = 0; k < n; k++) for (O *q_ = lv[k]; q_->type != TYPE_NONE; q_++) if (q_ == want) given = vf_eq(q_->name, (char[]){ w[k], 0 }); }
  bool set = argus_is_set(&a, p); argus_value_t v = argus_get(&a, p); int ec = a.error_code; size_t cnt = argus_count(&a, p);
  if (!want) { sx_reach("nothing"); CHECK(!set && cnt == 0 && v.raw == 0 && ec == ARGUS_ERROR_NO_VALUE, "a path that names nothing reads as nothing, and is reported"); return; }
  if (cm) { CHECK(set == given, "a command reads as set exactly when it was given"); return; } sx_reach("found"); if (dots > 2) sx_reach("deep"); CHECK(ec == 0 && set == want->is_set && cnt == want->value_count && v.as_string == want->value.as_string, "a path reads the option it names");
}
/* every length of chain: an option of any level by its plain name, from the root, and by its whole path */
void paths_long(void) {
  int n = (int)sx_choose(MAX_SUBCOMMAND_DEPTH + 1, "levels"), form = (int)sx_choose(3, "form"), j = form == 2 ? 1 + (int)sx_choose(MAX_SUBCOMMAND_DEPTH, "dots") : 0; if (j > n) sx_end(); bool hid = sx_choose(2, "hidden"); unsigned give = (unsigned)sx_choose(4, "given"); O *lv[MAX_SUBCOMMAND_DEPTH + 1]; char *av[3 * MAX_SUBCOMMAND_DEPTH + 6]; int c = 0; av[c++] = "prog";
  for (int k = n; k >= 0; k--) { O t[] = { OPTION_STRING('o', NULL), OPTION_STRING('v', "val"), OPTION_END(), OPTION_END() }; char q[3] = { 'o', (char)('0' + k), 0 }; t[0].name = t[0].lname = S(q); if (hid) t[0].flags |= FLAG_HIDDEN; if (k < n) { t[2] = (O)SUBCOMMAND("c", lv[k + 1], HELP("h")); if (hid) t[2].flags |= FLAG_HIDDEN; } lv[k] = TAB(t); }
  for (int k = 0; k <= n; k++) { char q[4] = { '-', 'o', (char)('A' + k), 0 }; if (give == 3 || (give & 1 && k == 0) || (give & 2 && k == n)) av[c++] = S(q); if (k < n) av[c++] = S("c"); } av[c] = 0;
  argus_t a; CHECK(go(&a, lv[0], c, av) == 0, "the commands are accepted"); CHECK(a.subcommand_depth == (size_t)n, "every command given is entered");
  char *d = vf_strset(1, "0123456789", "level"), *p = vf_cat(form == 1 ? ".o" : "o", d); for (int i = 0; i < j; i++) p = vf_cat("c.", p); int k = d[0] - '0'; bool there = form == 0 ? k <= n : form == 1 ? k == 0 : k == j, was = there && (give == 3 || (give & 1 && k == 0) || (give & 2 && k == n));
  bool set = argus_is_set(&a, p); argus_value_t v = argus_get(&a, p); int ec = a.error_code; size_t cnt = argus_count(&a, p);
  if (!there) { sx_reach("nothing"); CHECK(!set && cnt == 0 && v.raw == 0 && ec == ARGUS_ERROR_NO_VALUE, "a path that names nothing reads as nothing, and is reported"); return; }
  sx_reach("found"); CHECK(ec == 0 && set == was && (was ? v.as_string[0] == 'A' + k && !v.as_string[1] : v.raw == 0), "a path reads the option it names"); argus_free(&a);
}
/* ---- P28: execution */
static int ran[6], code; static void *got; static argus_t *who;
#define ACT(i) static int act##i(argus_t *a, void *d) { ran[i]++; got = d; who = a; return code; }
ACT(0) ACT(1) ACT(2) ACT(3) ACT(4) ACT(5)
void execute(void) {
  O l3[] = { OPTION_FLAG('f', "flag"), OPTION_END() }, *p3 = TAB(l3), *p4 = TAB(l3), *p1 = TAB(l3);
  O l2[] = { OPTION_FLAG('f', "flag"), SUBCOMMAND("deep", p3, ACTION(act3)), SUBCOMMAND("dumb", p4), OPTION_END() }, *p2 = TAB(l2), *p5 = TAB(l2);
  O lr[] = { OPTION_FLAG('f', "flag"), SUBCOMMAND("one", p1, ACTION(act1), HELP("First")), SUBCOMMAND("two", p2, ACTION(act2), HELP("Second")), SUBCOMMAND("six", p5, HELP("Sixth")), OPTION_END() }, *pr = TAB(lr);
  static const char *const w[] = {"", "one", "two", "six", "two deep", "two dumb", "six deep", "six dumb"}; static const int act[] = {-1, 1, 2, -1, 3, -1, 3, -1};
  int k = (int)sx_choose(8, "command"); unsigned fl = (unsigned)sx_choose(8, "flags"); code = (int)sx_var(32, "result"); char *av[10]; int c = 0; av[c++] = "prog"; if (fl & 1) av[c++] = S("-f");
  if (k) { av[c++] = k == 1 ? S("one") : k == 2 || k == 4 || k == 5 ? S("two") : S("six"); if (fl & 2) av[c++] = S("-f"); if (k == 4 || k == 6) av[c++] = S("deep"); if (k == 5 || k == 7) av[c++] = S("dumb"); if (k > 3 && fl & 4) av[c++] = S("--flag"); } av[c] = 0; (void)w;
  argus_t a; int mark; CHECK(go(&a, pr, c, av) == 0, "the commands are accepted"); CHECK(argus_has_command(&a) == (k > 0), "a command was chosen exactly when one was given");
  for (int i = 0; i < 6; i++) CHECK(ran[i] == 0, "parsing runs no action");
  int r = argus_exec(&a, &mark);
  for (int i = 0; i < 6; i++) CHECK(ran[i] == (i == act[k]), "exactly the action of the innermost command runs, once");
  if (act[k] >= 0) { sx_reach("ran"); CHECK(r == code, "the result of the action is returned"); CHECK(got == &mark && who == &a, "the action gets the caller's data and the parsed state"); }
  else CHECK(r == (k ? ARGUS_ERROR_INVALID_HANDLER : ARGUS_ERROR_NO_COMMAND), "without an action to run the caller is told so");
  argus_free(&a);
}
/* chains of any length, actions at any of their levels */
static int at_; static void *data_; static int count_;
#define DEEP(i) static int deep##i(argus_t *a, void *d) { who = a; at_ = i; data_ = d; count_++; return code; }
DEEP(0) DEEP(1) DEEP(2) DEEP(3) DEEP(4) DEEP(5) DEEP(6) DEEP(7)
void execute_deep(void) {
  static const argus_action_t f[] = { deep0, deep1, deep2, deep3, deep4, deep5, deep6, deep7 }; int n = 1 + (int)sx_choose(8, "levels"), form = (int)sx_choose(4, "form"), last = (int)sx_choose(4, "end"), ends = form; unsigned acts = (unsigned)sx_choose(1u << n, "actions"); O *lv[9]; char *av[32]; int c = 0; av[c++] = "prog"; code = (int)sx_var(32, "result"); vf_capture = 1;
  for (int k = n; k >= 0; k--) { O t[] = { HELP_OPTION(), OPTION_FLAG('f', "flag"), OPTION_STRING('s', "str"), SUBCOMMAND("word", NULL, HELP("h")), SUBCOMMAND("other", NULL, HELP("h")), OPTION_END() }; if (k < n) { t[3].sub_options = t[4].sub_options = lv[k + 1]; t[3].action = acts >> k & 1 ? f[k] : NULL; t[4].action = acts >> k & 1 ? NULL : f[7 - k]; } else t[3] = (O)(ends == 3 ? (O)POSITIONAL_STRING("word", FLAGS(FLAG_OPTIONAL)) : (O)OPTION_END()), t[4] = (O)OPTION_END(); lv[k] = TAB(t); }
  for (int k = 0; k < n; k++) { if (form == 1) av[c++] = S("-f"); if (form == 2) av[c++] = S("-sword"); av[c++] = last == 3 && k + 1 == n ? S("w") : S("word"); } if (last == 1) av[c++] = S("--flag"); if (last == 2) av[c++] = S("--"); if (last == 2 && ends == 3) av[c++] = S("word"); av[c] = 0;
  argus_t a; int mark = 0; vf_on_exit = no_exit; CHECK(go(&a, lv[0], c, av) == 0, "the commands are accepted"); CHECK(count_ == 0, "parsing runs no action"); CHECK(argus_has_command(&a), "a command was chosen");
  bool has = acts >> (n - 1) & 1; for (int r = 1; r < 3; r++) { int st = argus_exec(&a, &mark); if (has) CHECK(st == code && count_ == r && at_ == n - 1 && data_ == &mark && who == &a, "exactly the action of the innermost command runs, once"); else CHECK(st == ARGUS_ERROR_INVALID_HANDLER && count_ == 0, "without an action nothing runs and the caller is told so"); }
  sx_reach(has ? "ran" : "none"); CHECK(!has || silent(), "running an action prints nothing of its own"); argus_free(&a);
}
/* whatever else is declared of the commands */
void execute_declared(void) {
  static const argus_action_t f[] = { deep0, deep1, deep2, deep3 }; int n = 1 + (int)sx_choose(4, "levels"); unsigned acts = (unsigned)sx_choose(1u << n, "actions"), hid = (unsigned)sx_choose(1u << n, "hidden"), grp = (unsigned)sx_choose(2, "grouped"), plain = (unsigned)sx_choose(2, "hints"); O *lv[5]; char *av[12]; int c = 0; av[c++] = "prog"; code = (int)sx_var(32, "result"); vf_capture = 1;
  for (int k = n; k >= 0; k--) { O t[6]; int m = 0; t[m++] = (O)HELP_OPTION(); if (k < n) { if (grp) t[m++] = (O)GROUP_START("g"); O s = (O)SUBCOMMAND("word", lv[k + 1], HELP("h")); if (acts >> k & 1) s.action = f[k]; if (hid >> k & 1) s.flags |= FLAG_HIDDEN; if (plain) s.hint = "HINT"; t[m++] = s; if (grp) t[m++] = (O)GROUP_END(); } t[m++] = (O)OPTION_FLAG('f', "flag"); t[m] = (O)OPTION_END(); O *x = vf_mem(6 * sizeof(O)); for (int i = 0; i <= m; i++) x[i] = t[i]; lv[k] = x; }
  for (int k = 0; k < n; k++) av[c++] = S("word"); av[c] = 0; argus_t a; int mark = 0; vf_on_exit = no_exit; CHECK(go(&a, lv[0], c, av) == 0, "the commands are accepted"); CHECK(count_ == 0, "parsing runs no action"); CHECK(argus_has_command(&a), "a command was chosen");
  bool has = acts >> (n - 1) & 1; int st = argus_exec(&a, &mark); if (has) { sx_reach("ran"); CHECK(st == code && count_ == 1 && at_ == n - 1 && data_ == &mark && who == &a, "exactly the action of the innermost command runs, once"); } else { sx_reach("none"); CHECK(st == ARGUS_ERROR_INVALID_HANDLER && count_ == 0, "without an action nothing runs and the caller is told so"); } argus_free(&a);
}
/* ---- P27: reporting */
/* below any chain of commands */
void report_deep(void) {
  int n = 1 + (int)sx_choose(Q(7, 14), "commands"), kind = (int)sx_choose(4, "kind"), c = 0; O *lv[16]; char *av[40], *nm[16], *path = S("prog"), *bad = vf_strset(2, "zk9", "text"), *x; argus_t a; vf_on_exit = no_exit; vf_capture = 1; av[c++] = "prog";
  for (int k = 0; k < n; k++) { nm[k] = vf_strset(1 + (size_t)sx_choose(k < 2 ? 2 : 1, "length"), "pqr", "command"); path = vf_cat(path, vf_cat(" ", nm[k])); }
  for (int k = n; k >= 0; k--) { O t[] = { OPTION_FLAG('a', "aa"), OPTION_INT('i', "int"), OPTION_END(), OPTION_END() }; if (k < n) t[2] = (O)SUBCOMMAND(nm[k], lv[k + 1], HELP("h")); lv[k] = TAB(t); }
  for (int k = 0; k < n; k++) av[c++] = nm[k]; int want = ARGUS_ERROR_INVALID_ARGUMENT; switch (kind) { case 0: x = vf_cat("--", bad); break; case 1: x = vf_cat("-i", vf_cat(bad, "x")); want = ARGUS_ERROR_INVALID_FORMAT; break; case 2: x = S("-i"); want = ARGUS_ERROR_MISSING_VALUE; break; default: x = vf_cat("--aa=", bad); } av[c++] = x; av[c] = 0;
  int st = go(&a, lv[0], c, av); CHECK(st == want && a.error_code == st, "a rejected command line has the status of its cause"); CHECK(printed(1, "prog: "), "a report starts with the program's name"); if (kind < 2) CHECK(printed(1, bad), "a report names the text at fault");
  CHECK(printed(1, vf_cat("'", vf_cat(path, " --help'"))), "a rejection points to the help of the command in use"); CHECK(printed(0, vf_cat("Usage: ", vf_cat(path, " ["))), "a rejection shows the usage of the command in use");
}
void report(void) {
  vf_capture = 1; int kind = (int)sx_choose(12, "kind"), sub = (int)sx_choose(2, "command"); argus_t a; vf_on_exit = no_exit;
  O cmd[] = { OPTION_FLAG('a', "aa"), OPTION_STRING('o', "out"), OPTION_INT('i', "int", VALIDATOR(V_RANGE(1, 5))), OPTION_FLOAT('f', "flt"), OPTION_BOOL('b', "boo"), OPTION_ARRAY_INT('I', "ints"), OPTION_MAP_INT('M', "map"), OPTION_STRING('c', "cho", VALIDATOR(V_CHOICE_STR("x", "y"))), SUBCOMMAND("alpha", TAB(known), HELP("h")), SUBCOMMAND("alpine", TAB(known), HELP("h")), OPTION_END() };
  O root[] = { SUBCOMMAND("cmd", cmd), OPTION_END() }; char *v = vf_strset(1 + sx_choose(3, "length"), "zk9", "text"), *x = 0, *y = 0, *say = v; int want = 0;
  switch (kind) {
    case 0: x = vf_cat("--", v); want = ARGUS_ERROR_INVALID_ARGUMENT; break;
    case 1: x = vf_cat("-a", v); say = 0; want = ARGUS_ERROR_INVALID_ARGUMENT; break;
    case 2: x = S("--out"); say = S("out"); want = ARGUS_ERROR_MISSING_VALUE; break;
    case 3: x = S("-i"); y = vf_cat(v, "x"); say = y; want = ARGUS_ERROR_INVALID_FORMAT; break;
    case 4: x = S("-f"); y = vf_cat(v, "x"); say = y; want = ARGUS_ERROR_INVALID_FORMAT; break;
    case 5: x = S("-b"); y = vf_cat("q", v); say = y; want = ARGUS_ERROR_INVALID_ARGUMENT; break;
    case 6: x = S("-I"); y = vf_cat(v, ",q"); say = 0; want = ARGUS_ERROR_INVALID_FORMAT; break;
    case 7: x = S("-M"); y = v; want = ARGUS_ERROR_INVALID_FORMAT; break;
    case 8: x = S("al"); say = S("al"); want = ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND; break;
    case 9: x = v; want = ARGUS_ERROR_INVALID_ARGUMENT; break;
    case 10: x = vf_cat("--aa=", v); say = S("aa"); want = ARGUS_ERROR_INVALID_ARGUMENT; break;
    default: x = S("-a"); say = 0; want = 0;
  }
  char *av[6]; int n = 0; av[n++] = "prog"; if (sub) av[n++] = S("cmd"); av[n++] = x; if (y) av[n++] = y; av[n] = 0;
  int st = go(&a, sub ? root : cmd, n, av);
  CHECK(a.error_code == st, "the status returned is the status recorded");
  if (!want) { CHECK(st == 0, "a correct command line is accepted"); CHECK(silent(), "a correct command line prints nothing"); return; }
  CHECK(st == want, "a rejected command line has the status of its cause"); CHECK(vf_outlen[1] > 0, "a rejection is reported on the error stream");
  CHECK(printed(1, "prog: "), "a report starts with the program's name"); if (say) CHECK(printed(1, say), "a report names the text at fault"); else if (kind == 1) { char q[2] = { v[0], 0 }; char z[3] = { '-', q[0], 0 }; CHECK(printed(1, z), "a report names the letter at fault"); }
  CHECK(printed(1, sub ? "'prog cmd --help'" : "'prog --help'"), "a rejection points to the help of the command in use"); CHECK(printed(0, sub ? "Usage: prog cmd" : "Usage: prog"), "a rejection shows the usage of the command in use");
}
/* whatever the limit and whatever the value */
void report_limits(void) {
  static const int64_t b[] = {-1, 0, 1, 2}; int kind = (int)sx_choose(7, "kind"); int64_t lo = b[sx_choose(4, "least")], hi = b[sx_choose(4, "most")]; int n = (int)sx_choose(4, "given"); argus_t a; vf_on_exit = no_exit; vf_capture = 1;
  validator_entry_t e = *V_RANGE(0, 0), *l[] = { &e, NULL }; e = kind < 2 ? *V_RANGE(lo, hi) : kind == 2 ? *V_LENGTH(lo, hi) : *V_COUNT(lo, hi); O t[] = { OPTION_INT('i', "int", ENV_VAR("VAR")), OPTION_FLOAT('f', "flt", ENV_VAR("VAR")), OPTION_STRING('s', "str", ENV_VAR("VAR")), OPTION_ARRAY_INT('l', "list", ENV_VAR("VAR")), OPTION_ARRAY_STRING('w', "words", ENV_VAR("VAR")), OPTION_MAP_INT('m', "map", ENV_VAR("VAR")), OPTION_ARRAY_FLOAT('n', "nums", ENV_VAR("VAR")), OPTION_END() };
  t[kind].validators = l; bool env = sx_choose(2, "variable"); for (int i = 0; i < 7; i++) if (!env || i != kind) t[i].env_name = NULL;
  char *v; if (kind < 2) { v = vf_strset(1, "0123", "value"); if (n & 1) v = vf_cat("-", v); } else if (kind == 2) v = vf_strn((size_t)n, "value"); else { v = S(""); for (int i = 0; i < n; i++) v = vf_cat(v, vf_cat(i ? "," : "", kind == 5 ? vf_cat(i == 0 ? "a=" : i == 1 ? "b=" : "c=", vf_strset(1, "12", "value")) : vf_strset(1, "12", "value"))); if (!n && kind == 5) sx_end(); }
  char f[3] = { '-', t[kind].sname, 0 }; if (!env && !*v && kind != 4) sx_end(); if (kind > 2 && !n && kind != 4) sx_end(); if (env) vf_env("VAR", v); int st = env ? go(&a, TAB(t), 1, (char *[]){ "prog", NULL }) : GO(a, TAB(t), S(f), v); CHECK(a.error_code == st, "the status returned is the status recorded");
  if (st) { CHECK(vf_outlen[1] > 0 && printed(1, "prog: "), "a rejection is reported on the error stream"); sx_reach("reported"); } else { CHECK(silent(), "a correct command line prints nothing"); sx_reach("silent"); argus_free(&a); }
}
/* wherever in a bundle the letter at fault stands, and whatever its value */
void report_bundle(void) {
  int n = (int)sx_choose(Q(9, 14), "before"), kind = (int)sx_choose(5, "kind"); char *b = vf_mem((size_t)n + 4); argus_t a; vf_on_exit = no_exit; vf_capture = 1; b[0] = '-'; for (int i = 0; i < n; i++) b[1 + i] = "abc"[i % 3]; char *x = vf_strset(1, kind == 0 ? "xyz09=" : "xwz", "text"); int p = n + 1; if (kind == 0) b[p++] = x[0]; else b[p++] = kind == 1 ? 'i' : kind == 2 ? 's' : kind == 3 ? 'B' : 'i'; if (kind == 1 || kind == 3) b[p++] = x[0]; b[p] = 0; if (n == 0 && kind == 0 && x[0] == '0') sx_end();
  O t[] = { OPTION_FLAG('a', "aa"), OPTION_FLAG('b', "bb"), OPTION_FLAG('c', "cc"), OPTION_INT('i', "int"), OPTION_STRING('s', "str"), OPTION_BOOL('B', "boo"), OPTION_END() }; int want = kind == 0 ? ARGUS_ERROR_INVALID_ARGUMENT : kind == 1 ? ARGUS_ERROR_INVALID_FORMAT : kind == 3 ? ARGUS_ERROR_INVALID_ARGUMENT : kind == 2 ? ARGUS_ERROR_MISSING_VALUE : ARGUS_ERROR_INVALID_FORMAT; int st = kind == 4 ? GO(a, TAB(t), b, vf_cat(x, "1")) : GO(a, TAB(t), b);
  CHECK(st == want && a.error_code == st, "a rejected command line has the status of its cause"); CHECK(vf_outlen[1] > 0 && printed(1, "prog: "), "a rejection is reported on the error stream"); if (kind == 2) CHECK(printed(1, "-s"), "a report names the letter at fault"); else CHECK(printed(1, x), "a report names the text at fault"); sx_reach("reported");
}
