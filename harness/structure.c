/* Which tables the structure check accepts. */
#include "common.h"
#include <string.h>
static bool want; static int fd0;
static void refused(int code) { sx_reach("refused"); CHECK(code == 1, "a table that breaks a rule ends the program with failure"); CHECK(!want, "a table that keeps the rules is accepted"); CHECK(vf_outlen[1] > 0, "a table that breaks a rule is reported"); CHECK(vf_fd_open() == fd0, "the check leaves the streams as they were"); }
static void judge(O *t, bool ok) {
  want = ok; vf_on_exit = refused; vf_capture = 1; fd0 = vf_fd_open(); char **x = NULL; (void)x; argus_t a = _argus_init_validate(t, "prog", "1", true);
  CHECK(want, "a table that breaks a rule is refused"); CHECK(vf_outlen[1] == 0 && vf_outlen[0] == 0, "an accepted table is not commented"); CHECK(vf_fd_open() == fd0, "the check leaves the streams as they were"); CHECK(a.options == t, "the program gets its table"); sx_reach("accepted");
}
#define OPT(s, l) OPTION_FLAG(s, l, HELP("h"))
static char *sym(size_t max, const char *name) { return vf_strmax(max, name); }
static bool badl(const char *l) { bool b = l[0] == 0 || l[0] == '-'; for (; *l; l++) b |= (*l == ' ') | (*l == '.'); return b; }
/* names and letters; entries of every kind that has a name */
static void names_of(int N, size_t max) {
  O *t = vf_mem((size_t)(N + 2) * sizeof(O)); int kind[4], last = 0; char *nm[4], let[4]; bool ok = true; t[0] = (O)HELP_OPTION();
  for (int i = 0; i < N; i++) {
    kind[i] = (int)sx_choose(6, "kind"); if (N > 2 && (kind[i] == 0 || (i == 0 && kind[i] == 5))) sx_end(); if (kind[i] < last) sx_assume(false); if (kind[i] >= 3) last = kind[i]; if (i && kind[i] == 4 && kind[i - 1] == 3) sx_assume(false); /* options first, operands and commands not together */
    nm[i] = sym(kind[i] == 1 ? 0 : max, "name"); let[i] = kind[i] < 2 ? (char)sx_var(8, "letter") : 0; if (kind[i] < 2) sx_assume(let[i] != 0); if (kind[i] < 2 && N == 2) sx_assume(vf_in(let[i], "xh- ")); if (kind[i] < 2 && N > 2) sx_assume((let[i] == 'x') | (let[i] == 'y')); char *one = vf_mem(2); one[0] = let[i]; one[1] = 0;
    switch (kind[i]) {
      case 0: t[i + 1] = (O)OPT(let[i], nm[i]); break; case 1: t[i + 1] = (O)OPT(let[i], NULL); t[i + 1].name = nm[i] = one; break; case 2: t[i + 1] = (O)OPT('\0', nm[i]); break;
      case 3: t[i + 1] = (O)POSITIONAL_STRING(nm[i], HELP("h")); break; case 4: { O *s = vf_mem(2 * sizeof(O)); s[0] = (O)HELP_OPTION(); s[1] = (O)OPTION_END(); t[i + 1] = (O)SUBCOMMAND(nm[i], s, HELP("h")); break; } default: t[i + 1] = (O)GROUP_START(nm[i]); break;
    }
    if (kind[i] == 5) last = 0;
  }
  for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) if ((kind[i] == 3 && kind[j] < 3) || (kind[i] == 4 && kind[j] < 4) || (kind[i] == 3 && kind[j] == 4)) sx_assume(false); /* placement is another entry's */
  t[N + 1] = (O)OPTION_END();
  for (int i = 0; i < N; i++) { /* no branches */
    if (kind[i] == 5) continue; if (kind[i] < 2) ok &= (let[i] != ' ') & (let[i] != '-') & (let[i] != 'h'); if (kind[i] != 1) { ok &= nm[i][0] != 0; if (kind[i] < 3) ok &= !badl(nm[i]); } ok &= !vf_eq(nm[i], "help");
    for (int j = 0; j < i; j++) { if (kind[j] == 5) continue; ok &= !vf_eq(nm[i], nm[j]); if (kind[i] < 2 && kind[j] < 2) ok &= let[i] != let[j]; }
  }
  judge(t, ok);
}
void names2(void) { names_of(2, Q(2, 3)); }
void names3(void) { names_of(3, Q(1, 2)); }
void letters(void) { /* any letter twice; any letter beside a few others */
  bool same = sx_choose(2, "same"); char a = (char)sx_var(8, "letter"), b = same ? a : (char)sx_var(8, "letter"); sx_assume(a != 0); if (!same) sx_assume(vf_in(b, "q- h")); O t[] = { HELP_OPTION(), OPT(a, "aa"), OPTION_STRING(b, "bb", HELP("h")), OPTION_END() }; judge(t, (a != b) & (a != 'h') & (b != 'h') & (a != '-') & (b != '-') & (a != ' ') & (b != ' ')); }
/* flags against kinds */
void flags(void) {
  int k = (int)sx_choose(17, "kind"); unsigned f = (unsigned)sx_var(32, "flags"); sx_assume(f < 1u << 15); O t[4]; memset(t, 0, sizeof t); t[0] = (O)HELP_OPTION(); O s[] = { HELP_OPTION(), OPTION_END() };
  unsigned base = FLAG_REQUIRED | FLAG_HIDDEN | FLAG_ADVANCED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL | FLAG_EXIT | FLAG_ENV_OVERRIDE | FLAG_AUTO_ENV | FLAG_NO_ENV_PREFIX, m = base;
  switch (k) {
    case 0: t[1] = (O)OPTION_FLAG('a', "aa", HELP("h")); break; case 1: t[1] = (O)OPTION_STRING('a', "aa", HELP("h")); break; case 2: t[1] = (O)OPTION_INT('a', "aa", HELP("h")); break; case 3: t[1] = (O)OPTION_FLOAT('a', "aa", HELP("h")); break; case 4: t[1] = (O)OPTION_BOOL('a', "aa", HELP("h")); break;
    case 5: t[1] = (O)OPTION_ARRAY_STRING('a', "aa", HELP("h")); break; case 6: t[1] = (O)OPTION_ARRAY_INT('a', "aa", HELP("h")); break; case 7: t[1] = (O)OPTION_ARRAY_FLOAT('a', "aa", HELP("h")); break;
    case 8: t[1] = (O)OPTION_MAP_STRING('a', "aa", HELP("h")); break; case 9: t[1] = (O)OPTION_MAP_INT('a', "aa", HELP("h")); break; case 10: t[1] = (O)OPTION_MAP_FLOAT('a', "aa", HELP("h")); break; case 11: t[1] = (O)OPTION_MAP_BOOL('a', "aa", HELP("h")); break;
    case 12: t[1] = (O)POSITIONAL_STRING("aa", HELP("h")); m = FLAG_REQUIRED; break; case 13: t[1] = (O)POSITIONAL_MANY_INT("aa", HELP("h")); m = FLAG_REQUIRED | FLAG_SORTED | FLAG_UNIQUE | FLAG_DEPRECATED | FLAG_EXPERIMENTAL; break; case 14: t[1] = (O)POSITIONAL_MANY_STRING("aa", HELP("h")); m = FLAG_REQUIRED | FLAG_SORTED | FLAG_UNIQUE | FLAG_DEPRECATED | FLAG_EXPERIMENTAL; break;
    case 15: t[1] = (O)SUBCOMMAND("aa", s, HELP("h")); m = FLAG_HIDDEN | FLAG_ADVANCED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL; break; default: t[1] = (O)GROUP_START("aa"); m = FLAG_EXCLUSIVE; break;
  }
  if (k >= 5 && k <= 7) m |= FLAG_SORTED | FLAG_UNIQUE; if (k >= 8 && k <= 11) m |= FLAG_SORTED_VALUE | FLAG_SORTED_KEY | FLAG_UNIQUE_VALUE; t[1].flags = (argus_optflags_t)f; t[2] = (O)OPTION_END(); judge(t, (f & ~m) == 0);
}
/* the order of entries */
void placement(void) {
  enum { N = 4 }; int n = Q(N, N + 1); O *t = vf_mem((size_t)(n + 3) * sizeof(O)); int c = 0, help = (int)sx_choose(3, "help"); O s[] = { HELP_OPTION(), OPTION_END() }; static const char *const nm[] = {"a", "b", "c", "d", "e"}; bool ok = help != 2, sub = false, opt = false, many = false, oper = false; if (help == 0) t[c++] = (O)HELP_OPTION();
  for (int i = 0; i < n; i++) {
    int k = (int)sx_choose(8, "kind");
    switch (k) {
      case 0: t[c++] = (O)OPT('\0', nm[i]); ok &= !sub; break;
      case 1: t[c++] = (O)POSITIONAL_STRING(nm[i], HELP("h")); ok &= !opt && !many; oper = true; break;
      case 2: t[c++] = (O)POSITIONAL_INT(nm[i], HELP("h"), FLAGS(FLAG_OPTIONAL)); opt = true; break;
      case 3: t[c++] = (O)POSITIONAL_MANY_STRING(nm[i], HELP("h")); ok &= !opt && !many; many = true; break;
      case 4: t[c++] = (O)POSITIONAL_MANY_INT(nm[i], HELP("h"), FLAGS(FLAG_OPTIONAL)); opt = true; break;
      case 5: t[c++] = (O)SUBCOMMAND(nm[i], s, HELP("h")); sub = true; break; case 6: t[c++] = (O)GROUP_START(nm[i]); break; default: t[c++] = (O)GROUP_END(); break;
    }
    if (opt && many) ok = false; if (sub && oper) ok = false; if (sub && !oper && (opt || many)) sx_end(); /* optional operands beside commands: unspecified */
    if (sub && help == 1) ok = false;
  }
  if (help == 1) t[c++] = (O)HELP_OPTION(); t[c] = (O)OPTION_END(); judge(t, ok);
}
/* relations */
void relations(void) {
  O *t = vf_mem(6 * sizeof(O)); char *q[2], *x[2]; int nq = (int)sx_choose(3, "requires"), nx = (int)sx_choose(3, "conflicts"), at = (int)sx_choose(3, "holder"); if (nq + nx > Q(3, 4)) sx_end(); const char **rq = vf_mem(3 * sizeof(char *)), **cf = vf_mem(3 * sizeof(char *)); bool ok = true;
  for (int i = 0; i < nq; i++) rq[i] = q[i] = sym(2, "required name"); for (int i = 0; i < nx; i++) cf[i] = x[i] = sym(2, "conflicting name"); rq[nq] = cf[nx] = NULL; O s[] = { HELP_OPTION(), OPTION_FLAG('d', "d", HELP("h")), OPTION_END() }; (void)s;
  t[0] = (O)HELP_OPTION(); t[1] = (O)OPT('a', "a"); t[2] = (O)GROUP_START("g"); t[3] = (O)OPT('b', "bb"); t[4] = (O)POSITIONAL_STRING("c", HELP("h")); t[5] = (O)OPTION_END(); int h = at == 0 ? 1 : at == 1 ? 3 : 4; if (nq) t[h].require = rq; if (nx) t[h].conflict = cf; if (at == 2 && (nq || nx)) ok = false;
#define KNOWN(n) (vf_eq(n, "help") | vf_eq(n, "a") | vf_eq(n, "bb") | vf_eq(n, "c"))
  for (int i = 0; i < nq; i++) { sx_assume(!vf_eq(q[i], "g")); ok &= KNOWN(q[i]); } for (int i = 0; i < nx; i++) { sx_assume(!vf_eq(x[i], "g")); ok &= KNOWN(x[i]); for (int j = 0; j < nq; j++) ok &= !vf_eq(q[j], x[i]); } judge(t, ok);
}
/* defaults */
extern int vf_regex_outcome;
void defaults(void) {
  int k = (int)sx_choose(8, "kind"); O t[4]; memset(t, 0, sizeof t); t[0] = (O)HELP_OPTION(); t[2] = (O)OPTION_END(); bool ok = true; vf_capture = 0; regex_data_t r = { .pattern = "p", .hint = NULL };
  static const int64_t set[] = {0, 5, -3, INT64_MAX, INT64_MIN}; int64_t z = k < 2 ? set[sx_choose(5, "value")] : 0, lo = k < 2 ? set[sx_choose(5, "low")] : 0, hi = k < 2 ? set[sx_choose(5, "high")] : 0; char *v = k == 2 || k == 3 || k == 4 ? vf_strmax(3, "text") : S("");
  validator_entry_t e1 = *V_RANGE(lo, hi), e2 = *V_RANGE(-10, 10), e3 = *V_LENGTH(1, 2), e4 = *V_REGEX(r), e5 = *V_CHOICE_STR("ab", "c"); validator_entry_t *l1[] = { &e1, &e2, NULL }, *l2[] = { &e1, NULL }, *l3[] = { &e3, NULL }, *l4[] = { &e4, NULL }, *l5[] = { &e5, &e3, NULL };
  switch (k) {
    case 0: t[1] = (O)OPTION_INT('n', "num", HELP("h"), DEFAULT(z)); t[1].validators = l1; ok = lo <= z && z <= hi && -10 <= z && z <= 10; break;
    case 1: t[1] = (O)POSITIONAL_INT("num", HELP("h"), FLAGS(FLAG_OPTIONAL), DEFAULT(z)); t[1].validators = l2; ok = lo <= z && z <= hi; break;
    case 2: t[1] = (O)OPTION_STRING('s', "str", HELP("h"), DEFAULT(v)); t[1].validators = l3; ok = vf_len(v) >= 1 && vf_len(v) <= 2; break;
    case 3: t[1] = (O)OPTION_STRING('s', "str", HELP("h"), DEFAULT(v)); t[1].validators = l4; want = true; break;
    case 4: t[1] = (O)OPTION_STRING('s', "str", HELP("h"), DEFAULT(v)); t[1].validators = l5; ok = vf_eq(v, "ab") | vf_eq(v, "c"); break;
    case 5: t[1] = (O)OPTION_FLAG('f', "flag", HELP("h"), DEFAULT(true)); ok = false; break;
    case 6: t[1] = (O)POSITIONAL_STRING("pos", HELP("h"), DEFAULT("x")); ok = false; break;
    default: t[1] = (O)OPTION_STRING('s', "str", HELP("h"), FLAGS(FLAG_REQUIRED), DEFAULT("x")); break;
  }
  if (k != 3) { judge(t, ok); return; }
  /* the engine decides; its answer is known afterwards */
  vf_on_exit = NULL; sx_end();
}
static int v_ok(argus_t *a, void *p, validator_data_t d) { (void)a; (void)p; return (int)d.custom; }
static int vr_want; static void by_verdict(int code) { CHECK(code == 1, "a table that breaks a rule ends the program with failure"); CHECK(vr_want != 0, "a default its validators accept is accepted"); CHECK(vf_fd_open() == fd0, "the check leaves the streams as they were"); sx_reach("refused"); }
/* a default is judged by all its validators, of the text and of the value */
void default_verdicts(void) {
  int x = (int)sx_var(32, "first"), y = (int)sx_var(32, "second"); bool str = sx_choose(2, "text"), p1 = sx_choose(2, "pre"), p2 = sx_choose(2, "pre"); validator_entry_t a = *MAKE_VALIDATOR(v_ok, 0, _V_DATA_CUSTOM_(x), ORDER_POST), b = a; a.order = p1 ? ORDER_PRE : ORDER_POST; b.order = p2 ? ORDER_PRE : ORDER_POST; b.data.custom = (uintptr_t)y; validator_entry_t *l[] = { &a, &b, NULL };
  O t[] = { HELP_OPTION(), OPTION_STRING('s', "str", HELP("h"), DEFAULT("x")), OPTION_END() }; if (!str) t[1] = (O)OPTION_INT('s', "str", HELP("h"), DEFAULT(1)); t[1].validators = l; vf_fdmode = 1;
  vr_want = (str || !p1) && x ? 1 : 0; vr_want |= (str || !p2) && y ? 1 : 0; fd0 = vf_fd_open(); vf_on_exit = by_verdict; (void)_argus_init_validate(t, "prog", "1", true); CHECK(!vr_want, "a default its validators refuse is refused"); CHECK(vf_fd_open() == fd0, "the check leaves the streams as they were"); sx_reach("accepted");
}
/* what must not be missing, and what must not be there */
static int act(argus_t *a, void *d) { (void)a; (void)d; return 0; }
void parts(void) {
  int k = (int)sx_choose(4, "kind"), miss = (int)sx_choose(9, "fault"), lvl = (int)sx_choose(3, "level"); const char *const rel[] = {"help", NULL}; validator_entry_t e = *V_LENGTH(0, 9), *l[] = { &e, NULL }; O deep[4], mid[4], t[4]; O *lv[3] = { t, mid, deep };
  for (int i = 0; i < 3; i++) { lv[i][0] = (O)HELP_OPTION(); lv[i][1] = (O)OPTION_END(); lv[i][2] = (O)OPTION_END(); lv[i][3] = (O)OPTION_END(); } if (lvl == 1) t[1] = (O)SUBCOMMAND("m", mid, HELP("h"), ACTION(act)); if (lvl == 2) { t[1] = (O)SUBCOMMAND("m", mid, HELP("h")); mid[1] = (O)SUBCOMMAND("d", deep, HELP("h")); }
  O leaf[] = { HELP_OPTION(), OPTION_END() }; O *w = lv[lvl]; bool ok = miss == 0; O x = k == 0 ? (O)OPTION_STRING('s', "str", HELP("h")) : k == 1 ? (O)POSITIONAL_STRING("str", HELP("h")) : k == 2 ? (O)SUBCOMMAND("str", leaf, HELP("h")) : (O)GROUP_START("str");
  switch (miss) {
    case 1: x.help = NULL; if (k == 3) ok = true; break; case 2: x.handler = k == 2 ? (argus_handler_t)flag_handler : NULL; if (k == 3) ok = true; break; case 3: if (k == 3) { ok = true; break; } x.name = NULL; if (k == 0) { x.lname = NULL; x.sname = 0; x.name = ""; } break;
    case 4: if (k != 2) sx_end(); x.sub_options = NULL; break; case 5: if (k == 0 || k == 3) sx_end(); x.require = (const char **)rel; break; case 6: if (k == 0 || k == 3) sx_end(); x.conflict = (const char **)rel; break;
    case 7: if (k != 2) sx_end(); x.have_default = true; break; case 8: if (k != 2) sx_end(); x.validators = l; break; default: break;
  }
  if (k == 2 && sx_choose(2, "action")) x.action = act; if (k != 1 && k < 3 && sx_choose(2, "hidden")) x.flags |= FLAG_HIDDEN; if (sx_choose(2, "hint")) x.hint = "HINT";
  w[1] = x; w[2] = (O)OPTION_END(); judge(t, ok);
}
/* commands nested up to the limit, one fault anywhere or none */
void depth(void) {
  int n = (int)sx_choose(11, "levels"), bad = (int)sx_choose(12, "faulty level") - 1; if (bad > n) sx_end(); O *lv[12];
  for (int i = n; i >= 0; i--) { O *t = lv[i] = vf_mem(4 * sizeof(O)); t[0] = (O)HELP_OPTION(); t[1] = (O)OPT('x', i == bad ? "a.b" : "ab"); t[2] = i < n ? (O)SUBCOMMAND("c", lv[i + 1], HELP("h")) : (O)OPTION_END(); t[3] = (O)OPTION_END(); }
  judge(lv[0], bad < 0 && n <= MAX_SUBCOMMAND_DEPTH);
}
/* a level that leads back to one above it nests beyond every limit */
void loops(void) {
  int n = (int)sx_choose(9, "levels"), back = (int)sx_choose(9, "back to"), two = (int)sx_choose(2, "two"), bad = (int)sx_choose(3, "fault"); if (back > n) sx_end(); O *lv[10];
  for (int i = 0; i <= n; i++) lv[i] = vf_mem(5 * sizeof(O));
  for (int i = 0; i <= n; i++) { O *t = lv[i]; int c = 0; t[c++] = (O)HELP_OPTION(); t[c++] = (O)OPT(bad == 1 && i == n ? '-' : 'x', "ab"); if (two && i == n) t[c++] = (O)SUBCOMMAND("d", lv[n / 2], HELP("h")); t[c++] = (O)SUBCOMMAND("c", i < n ? lv[i + 1] : lv[back], HELP("h")); t[c] = (O)OPTION_END(); }
  judge(lv[0], false);
}
