/* Whole command lines over nested commands, against a reference reading of the documentation. */
#include "common.h"
enum { END, FLAG, STR, INT, CMD, POS, POSI, MANY, LVL = 5, ENT = 9, WORDS = 8 };
static const struct ent { int kind; char c; const char *n; int to; bool need; } spec[LVL][ENT] = {
  { {FLAG, 'a', "aa"}, {STR, 's', "si"}, {CMD, 0, "in", 1}, {CMD, 0, "is", 4}, {POS, 0, "p"}, {END} },
  { {INT, 'i', "in"}, {FLAG, 'a', "aa"}, {FLAG, 'n', "n"}, {CMD, 0, "in", 2}, {CMD, 0, "a", 4}, {CMD, 0, "ai", 4}, {END} },
  { {STR, 'n', "ni"}, {FLAG, 's', "s"}, {CMD, 0, "i", 3}, {MANY, 0, "m"}, {END} },
  { {FLAG, 'a', "an"}, {STR, 0, "s"}, {POS, 0, "p", 0, true}, {POSI, 0, "q"}, {END} },
  { {FLAG, 'i', 0}, {INT, 's', "si"}, {MANY, 0, "m"}, {END} } };
static struct got { bool set; const char *v[WORDS]; int n; } want[LVL][ENT];
static O *tab[LVL];
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool integer(const char *s) { if (*s == '-') s++; if (!*s) return false; for (; *s; s++) if (!digit(*s)) return false; return true; }
static int64_t number(const char *s) { bool m = *s == '-'; int64_t r = 0; for (s += m; *s; s++) r = r * 10 + (*s - '0'); return m ? -r : r; }
static void build(void) { for (int l = LVL - 1; l >= 0; l--) tab[l] = vf_mem((ENT + 1) * sizeof(O)); for (int l = 0; l < LVL; l++) { int k = 0; for (; spec[l][k].kind; k++) { struct ent e = spec[l][k]; tab[l][k] = e.kind == FLAG ? (O)OPTION_FLAG(e.c, e.n) : e.kind == STR ? (O)OPTION_STRING(e.c, e.n) : e.kind == INT ? (O)OPTION_INT(e.c, e.n) : e.kind == CMD ? (O)SUBCOMMAND(e.n, NULL, HELP("h")) : e.kind == POS ? (O)POSITIONAL_STRING(e.n) : e.kind == POSI ? (O)POSITIONAL_INT(e.n) : (O)POSITIONAL_MANY_STRING(e.n); if (!e.n) { char q[2] = { e.c, 0 }; tab[l][k].name = S(q); } if (e.kind == CMD) tab[l][k].sub_options = tab[e.to]; if (e.kind >= POS) tab[l][k].flags = e.need ? FLAG_REQUIRED : FLAG_OPTIONAL; } tab[l][k] = (O)OPTION_END(); } }
static bool name_is(const char *s, size_t n, const char *w) { if (!w) return false; for (size_t i = 0; i < n; i++) if (!w[i] || s[i] != w[i]) return false; return w[n] == 0; }
static bool begins(const char *w, const char *n) { while (*w) if (*w++ != *n++) return false; return true; }
static int chain[8], depth;
static int take(int l, int k, const char *v) { struct got *g = &want[l][k]; int kind = spec[l][k].kind; if ((kind == INT || kind == POSI) && !integer(v)) return ARGUS_ERROR_INVALID_FORMAT; if (kind != MANY) g->n = 0; g->set = true; g->v[g->n++] = v; return 0; }
static int operand(int l, int nth) { for (int k = 0; spec[l][k].kind; k++) { int d = spec[l][k].kind; if (d == MANY || ((d == POS || d == POSI) && nth-- == 0)) return k; } return -1; }
static int read(int l, int n, char **v) {
  int nth = 0, st; bool only = false; chain[depth++] = l;
  for (int i = 0; i < n; i++) {
    char *s = v[i]; if (!only && vf_eq(s, "--")) { only = true; continue; }
    if (!only && s[0] == '-' && s[1] == '-') {
      size_t z = 2; while (s[z] && s[z] != '=') z++; int k = 0; while (spec[l][k].kind && !(spec[l][k].kind <= INT && name_is(s + 2, z - 2, spec[l][k].n))) k++;
      if (!spec[l][k].kind || (spec[l][k].kind == FLAG && s[z])) return ARGUS_ERROR_INVALID_ARGUMENT;
      if (spec[l][k].kind == FLAG) { take(l, k, ""); continue; } if (!s[z] && i + 1 >= n) return ARGUS_ERROR_MISSING_VALUE;
      if ((st = take(l, k, s[z] ? s + z + 1 : v[++i]))) return st;
      continue;
    }
    int at = operand(l, nth);
    if (!only && s[0] == '-' && s[1] && !(digit(s[1]) && at >= 0 && spec[l][at].kind == POSI)) {
      for (char *q = s + 1; *q; q++) {
        int k = 0; while (spec[l][k].kind && !(spec[l][k].kind <= INT && spec[l][k].c == *q)) k++;
        if (!spec[l][k].kind) return ARGUS_ERROR_INVALID_ARGUMENT; if (spec[l][k].kind == FLAG) { take(l, k, ""); continue; }
        if (!q[1] && i + 1 >= n) return ARGUS_ERROR_MISSING_VALUE; if ((st = take(l, k, q[1] ? q + 1 : v[++i]))) return st;
        break;
      }
      continue;
    }
    if (!only) {
      int c = -1, many = 0; for (int k = 0; spec[l][k].kind; k++) if (spec[l][k].kind == CMD) { if (vf_eq(s, spec[l][k].n)) { c = k; many = 1; break; } if (begins(s, spec[l][k].n)) { many++; c = k; } }
      if (many > 1) return ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND; if (many) { want[l][c].set = true; return read(spec[l][c].to, n - i - 1, v + i + 1); }
    }
    if (at < 0) return ARGUS_ERROR_INVALID_ARGUMENT; if ((st = take(l, at, s))) return st;
    nth++;
  }
  return 0;
}
static void judge(int n, char **v) {
  char *av[WORDS + 2]; av[0] = "prog"; for (int i = 0; i < n; i++) av[i + 1] = v[i]; av[n + 1] = 0; build(); int st = read(0, n, v);
  for (int d = 0; d < depth && !st; d++) for (int k = 0; spec[chain[d]][k].kind; k++) if (spec[chain[d]][k].need && !want[chain[d]][k].set) st = ARGUS_ERROR_MISSING_REQUIRED;
  argus_t a; vf_on_exit = no_exit; int r = go(&a, tab[0], n + 1, av);
  if (st) { sx_reach("rejected"); CHECK(r == st, "a command line the reference reading rejects is rejected with the matching status"); return; }
  CHECK(r == 0, "a command line the reference reading accepts is accepted"); sx_reach("accepted"); if (depth > 1) sx_reach("command"); if (depth > 2) sx_reach("nested"); if (depth > 3) sx_reach("nested twice");
  CHECK(a.subcommand_depth == (size_t)depth - 1 && argus_has_command(&a) == (depth > 1), "the commands entered are those the line names");
  for (int l = 0; l < LVL; l++) for (int k = 0; spec[l][k].kind; k++) {
    O *o = &tab[l][k]; struct got *g = &want[l][k]; CHECK(o->is_set == g->set, "an entry is set exactly when the line gives it"); 
    switch (g->set ? spec[l][k].kind : END) { case FLAG: CHECK(o->value.as_bool, "a flag given is true"); break; case STR: case POS: CHECK(vf_eq(o->value.as_string, g->v[0]), "a text is delivered unaltered"); break; case INT: case POSI: CHECK(o->value.as_int64 == number(g->v[0]), "a number is delivered unaltered"); break; case MANY: CHECK(o->value_count == (size_t)g->n, "a repeating positional holds one value per operand"); for (int i = 0; i < g->n; i++) CHECK(vf_eq(o->value.as_array[i].as_string, g->v[i]), "a repeating positional keeps the operands in order"); }
  }
  int l = chain[depth - 1]; for (int k = 0; spec[l][k].kind; k++) if (spec[l][k].n && spec[l][k].kind != CMD) CHECK(argus_is_set(&a, spec[l][k].n) == want[l][k].set, "the innermost command is asked first");
  argus_free(&a);
}
#define SET "-ains1=x"
static char *word(int max) { return vf_strset(sx_choose((uint64_t)max + 1, "length"), SET, "word"); }
void line2(void) { char *v[] = { word(Q(7, 8)), word(Q(7, 8)) }; judge(2, v); }
void line3(void) { char *v[] = { word(Q(5, 6)), word(Q(5, 6)), word(Q(4, 5)) }; judge(3, v); }
void line4(void) { char *v[] = { word(3), word(Q(3, 4)), word(Q(3, 4)), word(3) }; judge(4, v); }
void line5(void) { char *v[] = { word(2), word(2), word(2), word(Q(2, 3)), word(Q(2, 3)) }; judge(5, v); }
static char *any(int max) { return vf_strmax((size_t)max, "word"); }
void line_any(void) { char *v[] = { any(Q(4, 5)), any(Q(4, 5)), any(Q(3, 4)) }; for (int i = 0; i < 3; i++) for (char *c = v[i]; *c; c++) sx_assume(*c > 32 && *c != '+' && *c != '0'); judge(3, v); }
/* within commands, at any depth */
void line_in(void) { static const char *const c[] = {"in", "is", "in", "in", "ai"}; int d = 1 + (int)sx_choose(5, "commands"), n = 0; char *v[8]; if (d == 2) v[n++] = S(c[1]); else { v[n++] = S(c[0]); if (d == 3) v[n++] = S("a"); else if (d > 3) v[n++] = S("in"); if (d == 5) v[n++] = S("i"); } v[n++] = word(Q(3, 4)); v[n++] = word(Q(3, 4)); if (d > 1) v[n++] = word(Q(2, 3)); judge(n, v); }
/* longer lines of words that matter */
static const char *const voc[] = {"--", "in", "is", "i", "a", "ai", "-a", "-s", "-i", "-n", "--si", "--in=1", "1", "-1", "x", "-sa", "-an", ""};
void line_voc(void) { int n = 3 + (int)sx_choose(Q(2, 3), "words"); char *v[WORDS]; for (int i = 0; i < n; i++) v[i] = S(voc[sx_choose(ARRLEN(voc), "word")]); judge(n, v); }
