/* What only describes an entry changes nothing of what is parsed. */
#include "isolation.c"
#define PLAIN "what only describes does not change what is accepted"
enum { MARKS, TEXTS, GROUPS, ORDER, WAYS };
#define NOTES ((unsigned)(FLAG_HIDDEN | FLAG_ADVANCED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL))
static void marks(O *t) {
  unsigned all = (unsigned)sx_var(32, "marks"); int n = 0;
  for (O *o = t; o->type != TYPE_NONE; o++, n++) { unsigned may = o->type == TYPE_OPTION || o->type == TYPE_SUBCOMMAND ? NOTES : o->type == TYPE_POSITIONAL && (o->value_type & VALUE_TYPE_VARIADIC) ? (unsigned)VERSIONING_FLAG_MASK : 0; o->flags = (argus_optflags_t)((unsigned)o->flags | ((all >> (n % 7)) & may)); if (o->sub_options) marks(o->sub_options); }
}
static void texts(O *t) { int h = (int)sx_choose(3, "help"); char *w = vf_strn(2, "help"); for (O *o = t; o->type != TYPE_NONE; o++) { if (o->type != TYPE_GROUP) { o->help = h == 0 ? NULL : h == 1 ? "" : w; if (h && o->type == TYPE_OPTION) o->hint = h == 1 ? "" : w; } if (o->sub_options) texts(o->sub_options); } }
static bool opens(const O *o) { return o->type == TYPE_GROUP && o->name; }
static bool closes(const O *o) { return o->type == TYPE_GROUP && !o->name; }
static O *grouped(O *t) {
  size_t n = entries(t), m = 0; O *r = vf_mem((2 * n + 4) * sizeof(O)); int every = 1 + (int)sx_choose(3, "group"), k = 0; bool in = false, mine = false;
  for (O *o = t; o->type != TYPE_NONE; o++) { if (o->sub_options) o->sub_options = grouped(o->sub_options); if (opens(o)) { in = true; mine = false; } if (closes(o)) in = false; if (!in && !opens(o) && !closes(o) && k++ % every == 0) { r[m++] = k & 1 ? (O)GROUP_START("some") : (O)GROUP_START("more"); mine = true; } else if (!in && mine && every > 1 && k % every == 0) { r[m++] = (O)GROUP_END(); mine = false; } r[m++] = *o; }
  r[m] = (O)OPTION_END(); return r;
}
/* the other way round; a group stays together, operands keep their places among each other */
static O *turned(O *t) {
  size_t n = entries(t), m = 0; O *r = vf_mem(n * sizeof(O)); int how = (int)sx_choose(3, "order"); size_t p[64], pn = 0, u[64], ul[64], un = 0;
  for (size_t i = 0; i + 1 < n;) { if (t[i].sub_options) t[i].sub_options = turned(t[i].sub_options); if (t[i].type == TYPE_POSITIONAL) { p[pn++] = i++; continue; } size_t j = i + 1; if (opens(&t[i])) { while (!closes(&t[j])) j++; j++; } u[un] = i; ul[un++] = j - i; i = j; }
  size_t q = 0; for (size_t i = 0; i < un; i++) { size_t x = how == 0 ? un - 1 - i : how == 1 ? (i + un / 2) % un : i ^ 1; if (x >= un) x = un - 1; for (size_t j = 0; j < ul[x]; j++) r[m++] = t[u[x] + j]; if (q < pn && how) r[m++] = t[p[q++]]; } while (q < pn) r[m++] = t[p[q++]]; r[m] = (O)OPTION_END(); return r;
}
static void likewise_(O *(*table)(void), int c, char **av, int ways) {
  int way = (int)sx_choose((uint64_t)ways, "difference"); O *t = table(), *u = table(); switch (way) { case MARKS: marks(u); break; case TEXTS: texts(u); break; case GROUPS: u = grouped(u); break; default: u = turned(u); }
  vf_on_exit = unlike_end; vf_capture = vf_vague = vf_regex_real = 1; argus_t x, y; int sx = go(&x, t, c, av), sy = go(&y, u, c, av); CHECK((sx == 0) == (sy == 0), PLAIN); if (way != ORDER) CHECK(sx == sy && y.error_code == x.error_code, PLAIN); if (sx) { sx_reach("rejected"); return; }
  sx_reach("accepted"); alike(&x, &y, t); CHECK(argus_exec(&x, NULL) == argus_exec(&y, NULL), PLAIN); argus_free(&x); argus_free(&y);
}
static void likewise(int c, char **av, int ways) { likewise_(full, c, av, ways); }
void plain_value(void) { int k = (int)sx_choose(NVAL, "option"); char *av[] = { "prog", vf_cat(val[k].n, any_of(k, Q(val[k].max > 2 ? 2 : val[k].max, val[k].max), "value")), "p", NULL }; likewise(3, av, WAYS); }
void plain_next(void) { int k = (int)sx_choose(NVAL, "option"); char *n = vf_cat(val[k].n, ""); n[vf_len(n) - 1] = 0; char *av[] = { "prog", n, any_of(k, 1, "value"), sx_choose(2, "other") ? "-g" : "--str=s", NULL }; likewise(4, av, WAYS); }
void plain_any(void) { char *av[] = { "prog", vf_strmax(Q(2, 4), "argument"), vf_strmax(Q(1, 2), "argument"), NULL }; likewise(3, av, WAYS); }
void plain_command(void) { static const char *const w[] = {"cmd", "cmf", "c", "cm", "cmdx", ""}; char *av[] = { "prog", "-sx", S(w[sx_choose(ARRLEN(w), "command")]), vf_strset(sx_choose(Q(3, 5), "length"), "-AN=,1", "argument"), vf_strset(sx_choose(Q(2, 3), "length"), "a=1", "argument"), "1", NULL }; likewise(6, av, WAYS); }
void plain_operands(void) { char *av[30]; int c = tail(av, Q(3, 6), "1-="); likewise(c, av, WAYS); }
void plain_rules(void) {
  static char *const w[] = {"-g", "-k3", "-q1", "--str=s", "--as=a", "-I1", "-x1234", "-c1,2,3,4", "-y22", "--def=z"}; char *av[8]; int c = 0; av[c++] = "prog"; for (int i = 0; i < Q(2, 3); i++) av[c++] = w[sx_choose(ARRLEN(w), "argument")]; av[c] = 0; likewise(c, av, WAYS);
}
void plain_variable(void) {
  static const char *const n[] = {"STR", "INT", "FLG", "AI", "MS"}, *const set[] = {NULL, "-09x", "01yesno", "-,1x", "=,ab"}; int k = (int)sx_choose(5, "variable"), m = (int)sx_choose(4, "length"); char *v = set[k] ? vf_strset((size_t)m, set[k], "value") : vf_strn((size_t)m, "value"); vf_env(n[k], v); char *av[] = { "prog", "--def=x", "x", NULL }; likewise(3, av, WAYS);
}
/* what must be given, what needs or excludes what, whether it is given on the line or by a variable */
static int must_, cmd_; static const char *ex1[] = { "bb", "cc", NULL }, *ex2[] = { "aa", NULL }, *need1[] = { "req", NULL }, *need2[] = { "sub", "flag", NULL };
static O *rules(void) {
  O sub[] = { HELP_OPTION(), OPTION_INT('q', "sub"), OPTION_FLAG('f', "flag"), OPTION_FLAG('n', "nn"), OPTION_END() }; if (must_ & 4) sub[1].flags |= FLAG_REQUIRED; sub[3].require = need2;
  O t[] = { HELP_OPTION(), OPTION_INT('r', "req", ENV_VAR("RR")), OPTION_FLAG('a', "aa"), GROUP_START("G", FLAGS(FLAG_EXCLUSIVE)), OPTION_FLAG('d', "dd"), OPTION_FLAG('b', "bb"), OPTION_INT('e', "ee", ENV_VAR("EE")), GROUP_END(), OPTION_FLAG('c', "cc"), OPTION_FLAG('f', "ff"), cmd_ ? (O)SUBCOMMAND("cmd", TAB(sub)) : (O)POSITIONAL_MANY_INT("pn"), OPTION_END() };
  if (must_ & 1) t[1].flags |= FLAG_REQUIRED; if (must_ & 2) t[8].flags |= FLAG_REQUIRED; if (!cmd_) t[10].flags |= must_ & 4 ? FLAG_REQUIRED : FLAG_OPTIONAL; t[2].conflict = ex1; t[8].conflict = ex2; t[9].require = need1; return TAB(t);
}
static void by_rules(int n, int last) {
  static char *const w[] = {"-a", "-b", "-c", "-d", "-r1", "-e2", "-f", "-ac", "-bd"}, *const s[] = {"-q1", "-f", "-n", "-fn"}, *const p[] = {"1", "-1", "x"}; char *av[12]; int c = 0; cmd_ = (int)sx_choose(2, "command"); must_ = (int)sx_choose(8, "required");
  av[c++] = "prog"; for (int i = 0; i < n; i++) av[c++] = w[sx_choose(ARRLEN(w), "argument")]; if (cmd_) { if (sx_choose(2, "given")) { av[c++] = "cmd"; for (int i = (int)sx_choose(last + 1, "arguments"); i > 0; i--) av[c++] = s[sx_choose(ARRLEN(s), "argument")]; } } else for (int i = (int)sx_choose(last + 1, "arguments"); i > 0; i--) av[c++] = p[sx_choose(ARRLEN(p), "argument")]; av[c] = 0;
  likewise_(rules, c, av, WAYS);
}
void plain_needs(void) { by_rules((int)sx_choose(2, "arguments"), Q(1, 2)); }
void plain_needs_two(void) { by_rules(2, Q(0, 1)); }
void plain_needs_env(void) { static const char *const e[] = {"RR", "EE"}; vf_env(e[sx_choose(2, "variable")], vf_strset(1, "09-", "value")); by_rules(1, Q(0, 2)); }
