/* What help, usage, overview and messages show. */
#include "common.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static bool at(size_t p, const char *w) { size_t n = vf_len(w); if (p + n > vf_outlen[0]) return false; bool m = true; for (size_t k = 0; k < n; k++) m &= vf_out[0][p + k] == w[k]; return m; }
/* markers are constants and their first letter occurs nowhere else */
static size_t mark(const char *w, int *n) {
  size_t r = 0, k, l = vf_len(w); *n = 0;
  for (size_t i = 0; i + l <= vf_outlen[0]; i++) { for (k = 0; k < l && !sx_is_sym((unsigned char)vf_out[0][i + k]) && vf_out[0][i + k] == w[k]; k++) {} if (k == l) { if (!(*n)++) r = i; } }
  return r;
}
static bool blank(char c) { if (sx_is_sym((unsigned char)c)) return false; return c == ' ' || c == '\n'; }
static char *word(size_t n, const char *name) { char *s = vf_strn(n, name); for (size_t i = 0; i < n; i++) sx_assume((s[i] != ' ') & (s[i] != '\n') & (s[i] != '#') & (s[i] != '@')); return s; }
/* the output from here on equals this text but for the amount of white space; gives the place after it */
static bool reads(size_t p, const char *w, size_t *end) {
  bool m = true; size_t n = vf_outlen[0];
  for (size_t i = 0; w[i] || sx_is_sym((unsigned char)w[i]); i++) { if (p >= n) return false; if (blank(w[i])) { if (!blank(vf_out[0][p])) return false; while (p < n && blank(vf_out[0][p])) p++; } else m &= vf_out[0][p++] == w[i]; }
  if (end) *end = p; return m;
}
static size_t line_of(size_t p) { while (p && (sx_is_sym((unsigned char)vf_out[0][p - 1]) || vf_out[0][p - 1] != '\n')) p--; return p; }
static bool head(size_t p) { return (p == 0 || (!sx_is_sym((unsigned char)vf_out[0][p - 1]) && vf_out[0][p - 1] == '\n')) && !blank(vf_out[0][p]); }
static void ready(argus_t *a, O *o) { *a = argus_init(o, "prog", "1"); }
/* ---- P25 */
static bool declared(unsigned e) { return e <= ARGUS_ERROR_STACK_OVERFLOW; }
void messages(void) {
  unsigned x = (unsigned)sx_var(32, "status"), y = (unsigned)sx_var(32, "status"); const char *p = argus_strerror((argus_error_type_t)x), *q = argus_strerror((argus_error_type_t)y); CHECK(p && q && p[0] && q[0], "every status has a message"); CHECK(argus_strerror((argus_error_type_t)x) == p, "the message of a status is fixed");
  const char *none = argus_strerror((argus_error_type_t)(ARGUS_ERROR_STACK_OVERFLOW + 1)); bool same = vf_eq(p, q);
  if (x == y) { CHECK(same, "the message of a status is fixed"); return; } if (declared(x) && declared(y)) { sx_reach("both declared"); CHECK(!same, "statuses have different messages"); } if (declared(x)) CHECK(!vf_eq(p, none), "a status of the library has its own message"); else { sx_reach("undeclared"); CHECK(vf_eq(p, none), "other numbers have the message for unknown statuses"); }
}
/* ---- P24: every entry where it belongs */
enum { BOTH, HID, LONGO, SHORTO, GRP, GRP2, END, POS, POSM, CMD, CMDH, KINDS, POSO = KINDS, POSR, LIST, LONGMAP, ALL };
static const char *const mk[] = {"#a", "#b", "#c", "#d", "#e"}, *const hm[] = {"@a", "@b", "@c", "@d", "@e"};
static O leaf[] = { HELP_OPTION(), OPTION_END() };
static O entry(int k, const char *name, char s, const char *help) {
  switch (k) {
    case BOTH: return (O)OPTION_STRING(s, name, HELP(help)); case HID: return (O)OPTION_STRING(s, name, HELP(help), FLAGS(FLAG_HIDDEN)); case LONGO: return (O)OPTION_FLAG('\0', name, HELP(help)); case SHORTO: { O o = (O)OPTION_INT(s, NULL, HELP(help)); o.name = name; return o; }
    case GRP: return (O)GROUP_START("#G"); case GRP2: return (O)GROUP_START("#GH"); case END: return (O)GROUP_END(); case POS: return (O)POSITIONAL_STRING(name, HELP(help)); case POSM: return (O)POSITIONAL_MANY_INT(name, HELP(help), FLAGS(FLAG_OPTIONAL));
    case POSO: return (O)POSITIONAL_INT(name, HELP(help), FLAGS(FLAG_OPTIONAL)); case POSR: return (O)POSITIONAL_MANY_STRING(name, HELP(help)); case LIST: return (O)OPTION_ARRAY_FLOAT(s, name, HELP(help), HINT("HINT")); case LONGMAP: return (O)OPTION_MAP_BOOL('\0', name, HELP(help));
    case CMD: return (O)SUBCOMMAND(name, leaf, HELP(help)); default: return (O)SUBCOMMAND(name, leaf, HELP(help), FLAGS(FLAG_HIDDEN));
  }
}
static void listing_of(int n, int depth) {
  int kind[5]; char *nm[5], *hp[5], let[5]; O *t = vf_mem((size_t)(n + 2) * sizeof(O)), *up = vf_mem(4 * sizeof(O)), *top = vf_mem(4 * sizeof(O));
  for (int i = 0; i < n; i++) { kind[i] = (int)sx_choose(KINDS, "kind"); nm[i] = vf_cat(mk[i], word(1, "name")); hp[i] = vf_cat(hm[i], word(2, "help")); char *l = vf_strn(1, "letter"); let[i] = l[0]; sx_assume((l[0] != '-') & (l[0] != ' ') & (l[0] != '\n') & (l[0] != '#') & (l[0] != '@')); t[i] = entry(kind[i], nm[i], let[i], hp[i]); }
  t[n] = (O)OPTION_END();
  up[0] = (O)OPTION_FLAG('u', "#u", HELP("@u")); up[1] = (O)SUBCOMMAND("deep", t, HELP("@v")); up[2] = (O)OPTION_END(); top[0] = (O)POSITIONAL_STRING("#w", HELP("@w"), FLAGS(FLAG_OPTIONAL)); top[1] = (O)SUBCOMMAND("cmd", depth == 2 ? up : t, HELP("@x")); top[2] = (O)OPTION_END(); if (depth == 1) { top[0] = (O)OPTION_FLAG('u', "#u", HELP("@u")); }
  argus_t a; size_t base = sx_live(); vf_capture = 1;
  if (depth == 0) ready(&a, t); else { vf_capture = 0; ready(&a, top); a.subcommand_stack[0] = &top[1]; if (depth == 2) a.subcommand_stack[1] = &up[1]; a.subcommand_depth = (size_t)depth; vf_capture = 1; }
  argus_print_help(&a); CHECK(vf_outlen[1] == 0, "help goes to the standard output"); CHECK(sx_live() == base, "showing help keeps nothing"); int c; const char *grp = "Options:"; bool cmds = false;
  for (int i = 0; i < n; i++) {
    int k = kind[i]; if (k == GRP) grp = "#G:"; if (k == GRP2) grp = "#GH:"; if (k == END) grp = "Options:"; if (k == GRP || k == GRP2 || k == END) continue;
    size_t h = mark(hm[i], &c); if (k == HID || k == CMDH) { CHECK(c == 0, "nothing hidden is shown"); mark(mk[i], &c); CHECK(c == 0, "nothing hidden is shown"); continue; }
    CHECK(c == 1, "every visible entry is described exactly once"); CHECK(at(h, hp[i]), "a description is shown unaltered"); mark(mk[i], &c); CHECK(c == (k != SHORTO), "every visible entry is named exactly once");
    size_t l = line_of(h), e = 0; while (blank(vf_out[0][l])) l++; char sh[3] = {'-', let[i], 0}; char *tok = k == BOTH ? vf_cat(vf_cat(sh, ", --"), vf_cat(nm[i], " <STR>")) : k == LONGO ? vf_cat("--", nm[i]) : k == SHORTO ? vf_cat(sh, " <NUM>") : k == POS ? vf_cat("<", vf_cat(nm[i], ">")) : k == POSM ? vf_cat("[", vf_cat(nm[i], "...]")) : nm[i];
    CHECK(reads(l, tok, &e) && blank(vf_out[0][e]), "an entry shows its names and the kind of its value");
    while (l && !head(l)) l--; const char *want = k == POS || k == POSM ? "Arguments:" : k == CMD ? "Commands:" : grp; CHECK(head(l) && at(l, want), "every entry stands in its section or group"); cmds |= k == CMD; sx_reach("shown");
  }
  if (depth) { mark("#u", &c); CHECK(c == 0, "help shows the level reached only"); mark("#w", &c); CHECK(c == 0, "help shows the level reached only"); mark("@", &c); }
  (void)cmds;
}
void listing(void) { listing_of(Q(4, 5), 0); }
void listing_levels(void) { listing_of(2, (int)sx_choose(2, "level") + 1); }
/* names of any length, in both columns' widths */
static char *plain(size_t n, const char *name) { char *s = word(n, name); for (size_t i = 0; i < n; i++) sx_assume((s[i] != '-') & (s[i] != '<') & (s[i] != '[')); return s; }
void names(void) {
  static const size_t len[] = {1, 2, 3, 8, 20, 40}; int k[2]; char *nm[2], *hp[2], let[2], *tok[2]; O t[3]; vf_capture = 1;
  for (int i = 0; i < 2; i++) {
    k[i] = (int)sx_choose(7, "kind"); size_t n = len[sx_choose(i ? 2 : 6, "length")]; char *p = plain(n > 2 ? 2 : n, "name"); char *m = vf_mem(n + 1); for (size_t j = 0; j < n; j++) m[j] = j < 2 ? p[j] : 'x'; m[n] = 0; nm[i] = m; hp[i] = vf_cat(hm[i], word(1, "help")); char *l = plain(1, "letter"); let[i] = l[0]; char sh[3] = {'-', let[i], 0}, *s = S(sh);
    switch (k[i]) { case 0: t[i] = (O)OPTION_FLAG(let[i], m, HELP(hp[i])); tok[i] = vf_cat(s, vf_cat(", --", m)); break; case 1: t[i] = (O)OPTION_STRING(let[i], m, HELP(hp[i])); tok[i] = vf_cat(s, vf_cat(", --", vf_cat(m, " <STR>"))); break; case 2: t[i] = (O)OPTION_FLAG('\0', m, HELP(hp[i])); tok[i] = vf_cat("--", m); break; case 3: t[i] = (O)OPTION_FLAG(let[i], NULL, HELP(hp[i])); t[i].name = m; tok[i] = s; break; case 4: t[i] = (O)POSITIONAL_STRING(m, HELP(hp[i]), FLAGS(FLAG_OPTIONAL)); tok[i] = vf_cat("[", vf_cat(m, "]")); break; case 5: t[i] = (O)SUBCOMMAND(m, leaf, HELP(hp[i])); tok[i] = m; break; default: t[i] = (O)OPTION_MAP_INT('\0', m, HELP(hp[i])); tok[i] = vf_cat("--", vf_cat(m, " <KEY=VALUE,...>")); }
  }
  t[2] = (O)OPTION_END(); argus_t a; ready(&a, t); argus_print_help(&a); int c;
  for (int i = 0; i < 2; i++) { size_t h = mark(hm[i], &c); CHECK(c == 1, "every visible entry is described exactly once"); size_t l = line_of(h); while (blank(vf_out[0][l])) l++; if (l >= h - 2) { l = line_of(line_of(h) - 1); while (blank(vf_out[0][l])) l++; } size_t e; CHECK(reads(l, vf_cat(tok[i], vf_cat(" - ", hp[i])), &e) && vf_out[0][e] == '\n', "an entry shows its names and the kind of its value"); } sx_reach("shown");
}
/* what an entry declares */
static const char *num(int i) { static const char *const s[] = {"0", "-7", "9223372036854775807", "-9223372036854775808"}; return s[i]; }
static const int64_t nums[] = {0, -7, INT64_MAX, INT64_MIN};
static int check_nothing(argus_t *a, void *p, validator_data_t d) { (void)a; (void)p; (void)d; return 0; }
static char *own_text; static char *own_format(validator_data_t d) { CHECK(d.custom == 77, "a formatter gets its own data"); if (!own_text) return NULL; size_t n = vf_len(own_text); char *r = malloc(n + 1); if (r) memcpy(r, own_text, n + 1); return r; }
static void tell(int k, int v, int d, int env, bool attrs, bool set) {
  char *help = vf_cat("@", word(2, "help")), *w = word(2, "text"), *e = word(1, "variable"), *dt = word(2, "default"); unsigned f = 0; O o; const char *type = NULL, *pre = "", *post = "";
  switch (k) {
    case 0: o = (O)OPTION_STRING('s', "opt", HELP(help)); type = "STR"; break; case 1: o = (O)OPTION_INT('s', "opt", HELP(help)); type = "NUM"; break; case 2: o = (O)OPTION_FLOAT('s', "opt", HELP(help)); type = "FLOAT"; break; case 3: o = (O)OPTION_BOOL('s', "opt", HELP(help)); type = "BOOL"; break; case 4: o = (O)OPTION_FLAG('s', "opt", HELP(help)); break;
    case 5: o = (O)OPTION_ARRAY_STRING('s', "opt", HELP(help)); post = ",..."; break; case 6: o = (O)OPTION_ARRAY_INT('s', "opt", HELP(help)); post = ",..."; break; case 7: o = (O)OPTION_MAP_BOOL('s', "opt", HELP(help)); pre = "KEY="; post = ",..."; break;
    case 8: o = (O)POSITIONAL_STRING("opt", HELP(help)); break; default: o = (O)POSITIONAL_INT("opt", HELP(help), FLAGS(FLAG_OPTIONAL)); break;
  }
  bool pos = k >= 8, coll = k >= 5 && k <= 7; char *desc = help; validator_entry_t ve[5], *vl[6] = {NULL}; const char *choices[2] = {w, "zz"}; int64_t ci[2] = {-4, INT64_MAX}; double cf[2] = {0.5, -2.25}; char *vt[5] = {NULL}; const char *vp[5] = {"", "", "", "", ""}, *vs[5] = {")", ")", ")", ")", ")"}; regex_data_t r = { .pattern = w, .hint = NULL }; regex_data_t rh = { .pattern = "x", .hint = w };
  int nv = v == 0 || (v >= 12 && v < 16) ? 0 : v == 16 ? 3 : v == 17 ? 5 : v >= 8 ? 2 : 1; const char *hint = NULL;
  for (int i = 0; i < nv; i++) {
    int x = nv == 1 ? v : v == 8 ? (i ? 2 : 1) : v >= 16 ? (i == 0 ? 2 : i == 1 ? 4 : i == 2 ? 6 : i == 3 ? 3 : 5) : (i ? 3 : 7);
    switch (x) {
      case 1: { int lo = (int)sx_choose(4, "low"), hi = (int)sx_choose(4, "high"); ve[i] = *V_RANGE(nums[lo], nums[hi]); vt[i] = vf_cat(num(lo), vf_cat("-", num(hi))); vp[i] = " (range: "; break; }
      case 2: ve[i] = *V_LENGTH(2, 30); vt[i] = S("2-30 chars"); vp[i] = " ("; break; case 3: ve[i] = *V_COUNT(1, 5); vt[i] = S("1-5"); vp[i] = " (count: "; break;
      case 4: ve[i] = *V_CHOICE_STR("x"); ve[i].data.choices.as_strings = choices; ve[i].data.choices.count = 2; vt[i] = vf_cat(w, "|zz"); vp[i] = " ["; vs[i] = "]"; break; case 5: ve[i] = *V_CHOICE_INT(1); ve[i].data.choices.as_ints = ci; ve[i].data.choices.count = 2; vt[i] = S("-4|9223372036854775807"); vp[i] = " ["; vs[i] = "]"; break;
      case 6: ve[i] = *V_REGEX(rh); vt[i] = w; vp[i] = " (pattern: "; break; case 7: ve[i] = *V_REGEX(r); vt[i] = w; vp[i] = " (pattern: "; break;
    }
    vl[i] = &ve[i];
  }
  if (v == 10) { ve[0] = *MAKE_VALIDATOR(check_nothing, NULL, _V_DATA_CUSTOM_(1), ORDER_POST); vl[0] = &ve[0]; vl[1] = NULL; nv = 0; } if (v == 11) { ve[0] = *V_CHOICE_FLOAT(1.0); ve[0].data.choices.as_floats = cf; ve[0].data.choices.count = 2; vl[0] = &ve[0]; vl[1] = NULL; nv = 1; vt[0] = S("0.5|-2.25"); vp[0] = " ["; vs[0] = "]"; }
  if (v >= 12 && v < 16) { own_text = v == 12 ? vf_cat(w, " or more") : v == 14 ? NULL : w; validator_entry_t c = *MAKE_VALIDATOR(check_nothing, own_format, _V_DATA_CUSTOM_(77), ORDER_POST); nv = v == 14 ? 0 : v == 15 ? 2 : 1; ve[v == 15] = c; vl[0] = &ve[0]; vl[1] = v == 15 ? &ve[1] : NULL; vt[v == 15] = own_text; vp[v == 15] = " ("; vs[v == 15] = ")"; if (v == 15) { ve[0] = *V_LENGTH(2, 30); vt[0] = S("2-30 chars"); vp[0] = " ("; } }
  if (vl[0]) o.validators = vl;
  bool own = !attrs && !pos && k != 4 && sx_choose(2, "hint"); if (own) { o.hint = hint = vf_cat("H", word(1, "hint")); }
  uint64_t hmax = set ? sx_var(64, "hint length") : 20; bool hsp = set && sx_var(8, "hint spaces") & 1; bool used = nv == 1 && !pos && k != 4 && !hint; if (used) used = vf_len(vt[0]) <= hmax; if (used) used = hsp || !vf_has(vt[0], " "); for (int i = 0; i < nv; i++) if (!used) desc = vf_cat(desc, vf_cat(vp[i], vf_cat(vt[i], vs[i])));
  if (!hint) hint = used ? vt[0] : type ? type : "VALUE";
  char *tail = NULL;
  if (d) {
    switch (k) { case 0: case 8: o.default_value.as_string = dt; tail = vf_cat(" (default: \"", vf_cat(dt, "\"")); break; case 1: case 9: o.default_value.as_int64 = nums[d - 1]; tail = vf_cat(" (default: ", num(d - 1)); break; case 2: o.default_value.as_float = d == 1 ? 0.8 : d == 2 ? -1.0 : d == 3 ? 1234567.0 : 0.0; tail = vf_cat(" (default: ", d == 1 ? "0.80" : d == 2 ? "-1.00" : d == 3 ? "1234567.00" : "0.00"); break; case 3: o.default_value.as_bool = d & 1; tail = vf_cat(" (default: ", d & 1 ? "true" : "false"); break; default: sx_end(); }
    o.have_default = true; o.value = o.default_value;
  }
  argus_t a; O *t = vf_mem(3 * sizeof(O)); char *en = NULL;
  if (env) { char *n = vf_cat("V", e); sx_assume((e[0] != '-') & !((e[0] >= 'a') & (e[0] <= 'z'))); if (env != 3 && env != 6) o.env_name = n; if (env == 2 || env == 6) f |= FLAG_NO_ENV_PREFIX; if (env == 3 || env == 6) { f |= FLAG_AUTO_ENV; n = S("OPT"); } en = env == 2 || env == 1 || env == 6 || env == 7 ? n : vf_cat(env == 5 ? "P_" : "P_", n); }
  if (env == 7) sx_end();
  char *fl = S(""); if (attrs) { unsigned m = (unsigned)sx_choose(16, "attributes"); if (m & 1) { f |= FLAG_EXIT; fl = vf_cat(fl, " (exit)"); } if (m & 2) { f |= FLAG_REQUIRED; } if ((o.flags | f) & FLAG_REQUIRED) fl = vf_cat(fl, " (required)"); if (m & 4) { f |= FLAG_DEPRECATED; fl = vf_cat(fl, " (deprecated)"); } if (m & 8) { f |= FLAG_EXPERIMENTAL; fl = vf_cat(fl, " (experimental)"); } } else if (o.flags & FLAG_REQUIRED) fl = S(" (required)");
  if (en) { size_t n = vf_len(desc); if (tail) tail = vf_cat(tail, vf_cat(", env: ", en)); else if (n > 3 && !sx_is_sym((unsigned char)desc[n - 1]) && desc[n - 1] == ')') { desc = vf_cat(desc, ""); desc[n - 1] = 0; tail = vf_cat(", env: ", en); } else tail = vf_cat(" (env: ", en); } if (tail) desc = vf_cat(desc, vf_cat(tail, ")")); desc = vf_cat(desc, fl);
  o.flags |= (argus_optflags_t)f; t[0] = o; t[1] = (O)OPTION_END(); ready(&a, t); if (set) { a.helper.config.smart_hint_max_length = hmax; a.helper.config.smart_hint_allow_spaces = hsp; } if (env == 3 || env == 4) a.env_prefix = "P"; if (env == 5 || env == 2 || env == 6) a.env_prefix = "P_"; size_t base = sx_live(); vf_capture = 1; argus_print_help(&a); CHECK(sx_live() == base, "showing help keeps nothing");
  int c; size_t h = mark("@", &c), e2 = 0; CHECK(c == 1, "every visible entry is described exactly once"); CHECK(reads(h, desc, &e2), "an entry shows all it declares"); CHECK(vf_out[0][e2] == '\n', "an entry shows no more than it declares"); size_t l = line_of(h); while (blank(vf_out[0][l])) l++; if (l >= h - 2) { l = line_of(h) - 1; l = line_of(l); while (blank(vf_out[0][l])) l++; }
  const char *shown = pos ? (o.flags & FLAG_REQUIRED ? "<opt> - @" : "[opt] - @") : k == 4 ? "-s, --opt - @" : vf_cat("-s, --opt <", vf_cat(pre, vf_cat(hint, vf_cat(post, "> - @")))); (void)coll; CHECK(reads(l, shown, NULL), "an entry shows its names and the kind of its value"); sx_reach("shown");
}
void declared_bounds(void) { int k = (int)sx_choose(10, "kind"), v = (int)sx_choose(18, "validator"), d = (int)sx_choose(2, "default"); if (d && k > 3 && k < 8) sx_end(); tell(k, v, d, (int)sx_choose(2, "variable"), false, false); }
void declared_values(void) { int k = (int)sx_choose(10, "kind"), d = (int)sx_choose(5, "default"); if (d && k > 3 && k < 8) sx_end(); tell(k, 0, d, (int)sx_choose(7, "variable"), true, false); }
/* texts of any length */
static void told_long(bool set) {
  static const size_t len[] = {1, 15, 16, 17, 20, 21, 31, 53, 54, 56, 57, 62, 63, 64, 65, 100, 126, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 1100, 2100}; int what = set ? 2 + (int)sx_choose(3, "what") : (int)sx_choose(8, "what"), k = (int)sx_choose(5, "kind"); uint64_t hmax = set ? sx_var(64, "hint length") : 20; bool hsp = set && sx_var(8, "hint spaces") & 1, gap = set && sx_choose(2, "space"); size_t n = len[sx_choose(ARRLEN(len), "length")]; char *x = vf_mem(n + 1), *y = word(1, "text"), *hp = vf_cat("@", word(1, "help")), *desc = hp, *tail = NULL; for (size_t i = 0; i < n; i++) x[i] = (char)('p' + i % 7); if (gap && n < 3) sx_end(); if (gap) x[n / 2] = ' '; x[n - 1] = y[0]; x[n] = 0; if (what == 6 && n > 124) sx_end(); if (what == 1 && k != 0 && k != 4) sx_end(); if (what == 7 && k == 4) sx_end(); if ((what >= 2 && what <= 4) && k > 1 && k < 4) sx_end(); if (what == 0 && k == 4) sx_end();
  if (what == 1 || what == 5) sx_assume(y[0] != '"');
  O t[4]; int m = 0; if (what == 7) t[m++] = (O)GROUP_START(x); O o = k == 0 ? (O)OPTION_STRING('s', "opt") : k == 1 ? (O)OPTION_ARRAY_STRING('s', "opt") : k == 2 ? (O)OPTION_MAP_STRING('s', "opt") : k == 3 ? (O)OPTION_ARRAY_INT('s', "opt") : (O)POSITIONAL_STRING("opt"); const char *hint = k == 0 || k == 4 ? "STR" : "VALUE"; validator_entry_t v, *vl[2] = {&v, NULL}; const char *cs[] = {x, "zz"}; regex_data_t r = { .pattern = what == 3 ? "x" : x, .hint = what == 3 ? x : NULL }; char *limit = NULL; const char *lp = "", *ls = "";
  switch (what) { case 0: o.hint = hint = x; break; case 1: o.default_value.as_string = x; o.have_default = true; o.value = o.default_value; tail = vf_cat(" (default: \"", vf_cat(x, "\")")); break; case 2: v = *V_CHOICE_STR("x"); v.data.choices.as_strings = cs; v.data.choices.count = 2; limit = vf_cat(x, "|zz"); lp = " ["; ls = "]"; break; case 3: case 4: v = *V_REGEX(r); limit = what == 4 && n > 15 ? S("pattern") : x; lp = " (pattern: "; ls = ")"; break; case 5: desc = vf_cat(hp, x); hp = desc; break; case 6: o.env_name = vf_cat("V", x); sx_assume((y[0] != '-') & !((y[0] >= 'a') & (y[0] <= 'z'))); tail = vf_cat(" (env: V", vf_cat(x, ")")); break; default: break; }
  if (limit) { bool has = gap && limit != NULL && !(what == 4 && n > 15), in = k != 4; if (in) in = vf_len(limit) <= hmax; if (in) in = hsp || !has; o.validators = vl; if (in) hint = limit; else tail = vf_cat(lp, vf_cat(limit, ls)); } o.help = hp; if (tail) desc = vf_cat(desc, tail); if (k == 4) desc = vf_cat(desc, " (required)"); t[m++] = o; if (what == 7) t[m++] = (O)GROUP_END(); t[m] = (O)OPTION_END(); argus_t a; ready(&a, t); a.helper.config.max_line_width = 5000; if (set) { a.helper.config.smart_hint_max_length = hmax; a.helper.config.smart_hint_allow_spaces = hsp; } vf_capture = 1; size_t base = sx_live(), e; int c; argus_print_help(&a); CHECK(sx_live() == base, "showing help keeps nothing");
  size_t h = mark("@", &c); CHECK(c == 1, "every visible entry is described exactly once"); CHECK(reads(h, desc, &e) && vf_out[0][e] == '\n', "an entry shows all it declares"); size_t l = line_of(h); while (blank(vf_out[0][l])) l++; if (l >= h - 2) { l = line_of(line_of(h) - 1); while (blank(vf_out[0][l])) l++; }
  char *shown = k == 4 ? S("<opt> - @") : vf_cat(k == 2 ? "-s, --opt <KEY=" : "-s, --opt <", vf_cat(hint, k == 0 ? "> - @" : ",...> - @")); CHECK(reads(l, shown, NULL), "an entry shows its names and the kind of its value"); if (what == 7) { char *g = vf_cat(x, ":"); int hits = 0; for (size_t p = 0; p < vf_outlen[0]; p++) if (head(p) && at(p, g)) hits++; CHECK(hits == 1, "a group is shown with its name"); } sx_reach("shown");
}
void declared_long(void) { told_long(false); }
void settings_hint_long(void) { told_long(true); }
/* long texts are broken between words and nothing is lost */
static void wrapped(char *x, int w, int col) {
  size_t n = vf_len(x); O t[2]; t[0] = (O)OPTION_FLAG('x', NULL, HELP(x)); t[1] = (O)OPTION_END(); argus_t a; ready(&a, t); a.helper.config.description_column = (size_t)col; a.helper.config.max_line_width = (size_t)(col + 2 + w); if (w == 0) w = 1; vf_capture = 1; argus_print_help(&a);
  size_t p = 0, i = 0, m = vf_outlen[0]; while (p < m && !(vf_out[0][p] == '-' && vf_out[0][p + 1] == 'x')) p++; p += 2; while (p < m && vf_out[0][p] != '-') p++; CHECK(at(p, "- "), "a description begins after a dash"); p += 2; size_t start = p, line = p;
  bool moved = true; size_t wlen = 0; 
  for (; i < n; i++) {
    if (x[i] == ' ') { moved = true; continue; } if (x[i] == '\n') { while (p < m && vf_out[0][p] == ' ') p++; CHECK(p < m && vf_out[0][p] == '\n', "a line break in a description is kept"); p++; line = p + (size_t)col + 2; moved = true; continue; }
    if (moved) { for (wlen = 0; i + wlen < n && x[i + wlen] != ' ' && x[i + wlen] != '\n'; wlen++) {} }
    bool gap = false; while (p < m && (vf_out[0][p] == ' ' || vf_out[0][p] == '\n')) { if (vf_out[0][p] == '\n') line = p + 1 + (size_t)col + 2; p++; gap = true; }
    CHECK(p < m && vf_out[0][p] == x[i], "every letter of a description is shown in order"); if (!moved && gap) CHECK(wlen >= (size_t)w, "a word is broken only if it fills the line"); if (moved && i && p != start) CHECK(gap, "words stay apart"); CHECK(p >= line && p - line < (size_t)w, "no line is longer than the width asked for"); p++; moved = false;
  }
  for (; p < m; p++) CHECK(vf_out[0][p] == ' ' || vf_out[0][p] == '\n', "nothing is shown after the description"); sx_reach("shown");
}
void wrap(void) { int w = (int)sx_choose(5, "width"), col = sx_choose(2, "column") ? 12 : 2; wrapped(vf_strmax(Q(7, 9), "text"), w, col); }
/* ---- P29 */
void usage(void) {
  int n = Q(4, 5), depth = (int)sx_choose(3, "level"); O *t = vf_mem((size_t)(n + 1) * sizeof(O)), *up = vf_mem(3 * sizeof(O)), *top = vf_mem(3 * sizeof(O)); char *c1 = word(2, "command"), *c2 = word(1, "command"); bool cmd = false, hid = false; char *want = S("Usage: prog"); if (depth) want = vf_cat(want, vf_cat(" ", c1)); if (depth == 2) want = vf_cat(want, vf_cat(" ", c2)); want = vf_cat(want, " [OPTIONS]");
  for (int i = 0; i < n; i++) {
    int k = (int)sx_choose(8, "kind"); char *nm = word(1, "name"); t[i] = k == 0 ? (O)OPTION_STRING('x', nm, HELP("h")) : k == 1 ? (O)POSITIONAL_STRING(nm, HELP("h")) : k == 2 ? (O)POSITIONAL_INT(nm, HELP("h"), FLAGS(FLAG_OPTIONAL)) : k == 3 ? (O)POSITIONAL_MANY_INT(nm, HELP("h")) : k == 4 ? (O)POSITIONAL_MANY_STRING(nm, HELP("h"), FLAGS(FLAG_OPTIONAL)) : k == 5 ? (O)SUBCOMMAND(nm, leaf, HELP("h")) : k == 6 ? (O)SUBCOMMAND(nm, leaf, HELP("h"), FLAGS(FLAG_HIDDEN)) : (O)GROUP_START(nm);
    if (k == 5) cmd = true; if (k == 6) hid = true; if (k >= 1 && k <= 4) want = vf_cat(want, vf_cat(k & 1 ? " <" : " [", vf_cat(nm, vf_cat(k > 2 ? "..." : "", k & 1 ? ">" : "]"))));
  }
  if (hid && !cmd) sx_end(); if (cmd) want = vf_cat(want, " COMMAND"); t[n] = (O)OPTION_END(); up[0] = (O)POSITIONAL_STRING("up", HELP("h")); up[1] = (O)SUBCOMMAND(c2, t, HELP("h")); up[2] = (O)OPTION_END(); top[0] = (O)POSITIONAL_STRING("top", HELP("h")); top[1] = (O)SUBCOMMAND(c1, depth == 2 ? up : t, HELP("h")); top[2] = (O)OPTION_END(); argus_t a; ready(&a, depth ? top : t); if (depth) a.subcommand_stack[0] = &top[1]; if (depth == 2) a.subcommand_stack[1] = &up[1]; a.subcommand_depth = (size_t)depth;
  vf_capture = 1; argus_print_usage(&a); size_t e; CHECK(reads(0, want, &e), "the usage line shows commands and positionals in order"); CHECK(vf_out[0][e] == '\n' && e + 1 == vf_outlen[0], "the usage line shows no more"); CHECK(vf_outlen[1] == 0, "usage goes to the standard output"); sx_reach("shown");
}
static int act(argus_t *a, void *d) { (void)a; (void)d; return 0; }
/* lines that list a command: indented, a path and a description */
static int listed(const char *path, const char *help, int *lines) {
  int n = 0; *lines = 0; for (size_t i = 0; i + 2 < vf_outlen[0]; i++) { if (i && (sx_is_sym((unsigned char)vf_out[0][i - 1]) || vf_out[0][i - 1] != '\n')) continue; if (!blank(vf_out[0][i]) || vf_out[0][i] == '\n' || blank(vf_out[0][i + 2])) continue; (*lines)++; if (!path) continue; char *w = vf_cat(path, vf_cat(" - ", help)); size_t e; size_t p = i; while (blank(vf_out[0][p])) p++; bool r = reads(p, w, &e); if (r && vf_out[0][e] == '\n') n++; } return n;
}
void overview(void) {
  O *t = vf_mem(4 * sizeof(O)); char *cn[2], *ch[2], *sn[2][2], *sh[2][2]; int vis[2], sk[2][2]; bool ac[2]; t[0] = (O)HELP_OPTION();
  for (int i = 0; i < 2; i++) {
    cn[i] = vf_cat(i ? "d" : "c", word(1, "command")); ch[i] = word(2, "help"); vis[i] = (int)sx_choose(2, "visible"); ac[i] = sx_choose(2, "action"); O *s = vf_mem(4 * sizeof(O)); int m = 0; s[m++] = (O)HELP_OPTION();
    for (int j = 0; j < 2; j++) { sk[i][j] = (int)sx_choose(5, "nested"); sn[i][j] = vf_cat(j ? "t" : "s", word(1, "nested")); sh[i][j] = word(1, "help"); if (sk[i][j]) s[m++] = (O)SUBCOMMAND(sn[i][j], leaf, HELP(sh[i][j])); if (sk[i][j] & 1) s[m - 1].action = act; if (sk[i][j] > 2) s[m - 1].flags |= FLAG_HIDDEN; }
    s[m] = (O)OPTION_END(); t[i + 1] = (O)SUBCOMMAND(cn[i], s, HELP(ch[i])); if (ac[i]) t[i + 1].action = act; if (!vis[i]) t[i + 1].flags |= FLAG_HIDDEN;
  }
  t[3] = (O)OPTION_END(); argus_t a; char *av[] = {S("prog"), NULL}; CHECK(go(&a, t, 1, av) == 0, "an empty command line is accepted"); vf_capture = 1; argus_exec(&a, NULL); int want = 0, lines; listed(NULL, NULL, &lines);
  for (int i = 0; i < 2; i++) { if (!vis[i]) continue; char *p = vf_cat("prog ", cn[i]); int l; if (ac[i]) { want++; CHECK(listed(p, ch[i], &l) == 1, "every visible command that can be executed is listed with its description"); } for (int j = 0; j < 2; j++) if (sk[i][j] == 1) { want++; CHECK(listed(vf_cat(p, vf_cat(" ", sn[i][j])), sh[i][j], &l) == 1, "every visible nested command that can be executed is listed with its description"); } }
  CHECK(lines == want, "nothing else is listed"); if (want) sx_reach("listed"); else sx_reach("empty");
}
/* long names are listed whole */
static char *spelled(int n, char c, const char *name) { char *s = vf_mem((size_t)n + 1), *x = word(1, name); for (int i = 0; i < n; i++) s[i] = c; s[n - 1] = x[0]; s[n] = 0; return s; }
void overview_long(void) {
  static const int len[] = {2, 11, 12, 14, 24, 31, 40, 64, 120, 200, 240}; int l; char *n[3], *path; O *d = vf_mem(3 * sizeof(O)), *s = vf_mem(3 * sizeof(O)), *t = vf_mem(3 * sizeof(O)); bool below = sx_choose(2, "below"); for (int i = 0; i < 2; i++) n[i] = spelled(len[sx_choose(ARRLEN(len), "length")], (char)('p' + i), "command"); n[2] = S("zz"); vf_on_exit = no_exit;
  d[0] = (O)SUBCOMMAND(n[2], leaf, HELP("third"), ACTION(act)); d[1] = (O)OPTION_END(); s[0] = (O)SUBCOMMAND(n[1], below ? d : leaf, HELP("second")); s[1] = (O)OPTION_END(); if (!below) s[0].action = act; t[0] = (O)SUBCOMMAND(n[0], s, HELP("first")); t[1] = (O)OPTION_END(); if (!below) t[0].action = act; argus_t a;
  CHECK((below ? GO(a, t, n[0], n[1]) : go(&a, t, 1, ARGS(NULL))) == 0, "a command is accepted"); vf_capture = 1; argus_exec(&a, NULL);
  if (below) { path = vf_cat(n[1], " zz"); CHECK(listed(path, "third", &l) == 1 && l == 1, "every visible command below is listed with its description"); }
  else { path = vf_cat("prog ", n[0]); CHECK(listed(path, "first", &l) == 1 && l == 2, "every visible command that can be executed is listed with its description"); CHECK(listed(vf_cat(path, vf_cat(" ", n[1])), "second", &l) == 1, "every visible nested command that can be executed is listed with its description"); }
}
/* the commands below one that cannot be executed */
void nested(void) {
  O *d = vf_mem(3 * sizeof(O)), *s = vf_mem(5 * sizeof(O)), *t = vf_mem(3 * sizeof(O)); char *n[3], *h[3]; int k[3]; unsigned acts = (unsigned)sx_choose(8, "actions"); for (int i = 0; i < 3; i++) { n[i] = vf_cat(i == 0 ? "s" : i == 1 ? "t" : "u", word(1, "nested")); h[i] = word(1, "help"); k[i] = (int)sx_choose(3, "nested"); if (i == 2 && !k[0]) sx_end(); } char *cn = vf_cat("c", word(1, "command"));
  int m = 0; if (k[2]) { d[m] = (O)SUBCOMMAND(n[2], leaf, HELP(h[2])); if (k[2] == 2) d[m].flags |= FLAG_HIDDEN; if (acts & 4) d[m].action = act; m++; } d[m] = (O)OPTION_END(); m = 0; for (int i = 0; i < 2; i++) if (k[i]) { s[m] = (O)SUBCOMMAND(n[i], i ? leaf : d, HELP(h[i])); if (k[i] == 2) s[m].flags |= FLAG_HIDDEN; if (acts >> i & 1) s[m].action = act; m++; } s[m++] = (O)OPTION_FLAG('q', "#q", HELP("@q")); s[m] = (O)OPTION_END(); t[0] = (O)SUBCOMMAND(cn, s, HELP("h")); t[1] = (O)OPTION_END();
  argus_t a; CHECK(GO(a, t, cn) == 0, "a command is accepted"); vf_capture = 1; argus_exec(&a, NULL); int lines, l, want = 0; listed(NULL, NULL, &lines);
  for (int i = 0; i < 3; i++) { if (k[i] != 1 || (i == 2 && k[0] != 1)) continue; want++; char *p = i == 2 ? vf_cat(cn, vf_cat(" ", vf_cat(n[0], vf_cat(" ", n[2])))) : vf_cat(cn, vf_cat(" ", n[i])); CHECK(listed(p, h[i], &l) == 1, "every visible command below is listed with its description"); }
  CHECK(lines == want, "nothing else is listed"); if (want) sx_reach("listed"); else sx_reach("empty");
  CHECK(printed(0, vf_cat("prog ", vf_cat(cn, " SUBCOMMAND --help'"))), "the way to more help names the command in use");
}
/* ---- P35: help, usage and version as a whole */
static int sect(int k) { return k == POS || k == POSM || k == POSO || k == POSR ? 0 : k == CMD ? 9 : 5; }
static void layout_of(int n, int depth, bool any) {
  static const char *const hd[] = {"Arguments:", "#G:", "#GH:", "Options:", "Commands:"}; static const size_t len[] = {0, 18, 45};
  int kind[6], first[6]; char *nm[6]; static const char *const mk_[] = {"#a", "#b", "#c", "#d", "#e", "#f"}, *const hm_[] = {"@a", "@b", "@c", "@d", "@e", "@f"}; O *t = vf_mem((size_t)(n + 1) * sizeof(O)), *up = vf_mem(3 * sizeof(O)), *top = vf_mem(3 * sizeof(O)); size_t l0 = any ? (size_t)sx_choose(60, "length") : len[sx_choose(3, "length")];
  for (int i = 0; i < n; i++) { kind[i] = (int)sx_choose(any ? ALL : KINDS, "kind"); nm[i] = vf_cat(mk_[i], word(1, "name")); if (!i && l0) { char *m = vf_mem(l0 + 1); for (size_t j = 0; j < l0; j++) m[j] = 'x'; m[l0] = 0; nm[i] = vf_cat(nm[i], m); } char *l = vf_strn(1, "letter"); sx_assume((l[0] != '-') & (l[0] != ' ') & (l[0] != '\n') & (l[0] != '#') & (l[0] != '@')); t[i] = entry(kind[i], nm[i], l[0], vf_cat(hm_[i], word(1, "help"))); }
  t[n] = (O)OPTION_END(); up[0] = (O)HELP_OPTION(); up[1] = (O)SUBCOMMAND("deep", t, HELP("v")); up[2] = (O)OPTION_END(); top[0] = (O)HELP_OPTION(); top[1] = (O)SUBCOMMAND("cmd", depth == 2 ? up : t, HELP("x")); top[2] = (O)OPTION_END(); argus_t a;
  if (depth == 0) ready(&a, t); else { ready(&a, top); a.subcommand_stack[0] = &top[1]; if (depth == 2) a.subcommand_stack[1] = &up[1]; a.subcommand_depth = (size_t)depth; }
  vf_capture = 1; argus_print_help(&a); int c, grp = 3, seen[5] = {0}, ng = 0, order[2] = {-1, -1}; bool cmds = false; size_t col = 0, at_[6], last[10] = {0}; for (int i = 0; i < 6; i++) first[i] = -1;
  for (int i = 0; i < n; i++) {
    int k = kind[i]; at_[i] = 0; if (k == GRP) grp = 1; if (k == GRP2) grp = 2; if (k == END) grp = 3; if (k == GRP || k == GRP2 || k == END || k == HID || k == CMDH) continue;
    int s = sect(k) == 0 ? 0 : sect(k) == 9 ? 4 : grp; seen[s]++; if ((s == 1 || s == 2) && ng < 2 && order[0] != s && order[1] != s) order[ng++] = s; cmds |= k == CMD; size_t h = mark(hm_[i], &c); CHECK(c == 1, "every visible entry is described exactly once");
    size_t w = h - line_of(h); if (!col) col = w; CHECK(col == w, "all descriptions start in the same column"); CHECK(h > last[s], "entries of a section stand in the order declared"); last[s] = h; at_[i] = h;
  }
  size_t pos[5] = {0}; for (int s = 0; s < 5; s++) { int m = 0; for (size_t p = 0; p < vf_outlen[0]; p++) if (head(p) && at(p, hd[s])) { m++; pos[s] = p; } CHECK(m == (seen[s] > 0), "a section has its heading, once, when it shows an entry"); }
  for (int s = 0; s < 5; s++) for (int r = s + 1; r < 5; r++) if (seen[s] && seen[r] && !(s == 1 && r == 2)) CHECK(pos[s] < pos[r], "positionals come first, then groups, other options and commands"); if (seen[1] && seen[2]) CHECK(pos[order[0]] < pos[order[1]], "groups stand in the order they are first used");
  char *way = vf_cat("Run 'prog", vf_cat(depth ? " cmd" : "", vf_cat(depth == 2 ? " deep" : "", " COMMAND --help'"))); mark("COMMAND", &c); CHECK(c == (cmds ? 1 : 0), "the way to a command's help is shown once when commands are shown"); if (cmds) { mark(way, &c); CHECK(c == 1, "the way to a command's help names the commands entered"); } sx_reach(cmds ? "commands" : "no commands"); (void)at_; (void)first;
}
void layout(void) { layout_of(Q(4, 5), 0, false); }
void columns(void) { layout_of(2, 0, true); }
void layout_levels(void) { layout_of(Q(3, 4), (int)sx_choose(2, "level") + 1, false); }
/* the version and the description, and nothing that is not given */
static bool lines_are(const char *w) { size_t p = 0; bool m = true; for (size_t i = 0; w[i] || sx_is_sym((unsigned char)w[i]); i++) { if (p >= vf_outlen[0]) return false; m &= vf_out[0][p++] == w[i]; } while (p < vf_outlen[0] && blank(vf_out[0][p])) p++; return m & (p == vf_outlen[0]); }
void version(void) {
  char *name = word(1 + (size_t)sx_choose(3, "length"), "program"), *v = sx_choose(2, "version") ? word(1 + (size_t)sx_choose(Q(4, 9), "length"), "version") : NULL, *d = sx_choose(2, "description") ? word(1 + (size_t)sx_choose(Q(4, 60), "length"), "description") : NULL; O t[] = { VERSION_OPTION(), OPTION_END() }; argus_t a = argus_init(TAB(t), name, v); a.description = d;
  char *want = v ? vf_cat(name, vf_cat(" v", v)) : name; want = vf_cat(want, "\n"); if (d) want = vf_cat(want, vf_cat("\n", d)); vf_capture = 1; argus_print_version(&a); CHECK(lines_are(want), "the version shows the program, its version and its description"); CHECK(vf_outlen[1] == 0, "the version goes to the standard output"); sx_reach(v ? "version" : "no version");
}
/* asking on the command line shows what the functions print */
static argus_t *asked_; static char first_[VF_OUT_MAX]; static size_t flen_; static bool ended_;
static void ended(int code) {
  CHECK(code == 0 && !ended_, "asking for help or the version ends the program successfully"); ended_ = true; sx_reach("asked"); bool m = flen_ == vf_outlen[0]; for (size_t i = 0; i < flen_ && i < vf_outlen[0]; i++) m &= first_[i] == vf_out[0][i]; CHECK(m, "asking on the command line shows the same text as the functions"); CHECK(vf_outlen[1] == 0, "nothing is reported"); sx_end();
}
static void laid(argus_t *a, int how) { a->helper.config.option_indent = how == 1 ? 0 : 7; a->helper.config.description_column = how == 1 ? 9 : 40; a->helper.config.max_line_width = how == 1 ? 20 : 300; a->helper.config.smart_hint_max_length = how == 1 ? 0 : 90; a->helper.config.smart_hint_allow_spaces = how == 2; }
void asked(void) {
  int lv = (int)sx_choose(3, "level"), ask = (int)sx_choose(4, "question"), extra = (int)sx_choose(3, "before"), look = (int)sx_choose(3, "layout"); char *w = vf_cat("w", word(1, "help")); sx_assume(w[1] != 0);
  O *sub[3]; for (int k = 2; k >= 0; k--) { O t[] = { HELP_OPTION(), VERSION_OPTION(), OPTION_FLAG('f', "flag", HELP(w)), OPTION_INT('i', "int", HELP(w), DEFAULT(4)), POSITIONAL_STRING("rest", FLAGS(FLAG_OPTIONAL)), OPTION_END() }; if (k < 2) t[4] = (O)SUBCOMMAND(k ? "deep" : "cmd", sub[k + 1], HELP(w)); sub[k] = TAB(t); }
  argus_t b = argus_init(sub[0], "prog", "1.2"); b.description = w; if (look) laid(&b, look); for (int k = 0; k < lv; k++) b.subcommand_stack[k] = &sub[k][4]; b.subcommand_depth = (size_t)lv; vf_capture = 1; if (ask < 2) { argus_print_usage(&b); argus_print_help(&b); } else argus_print_version(&b); flen_ = vf_outlen[0]; for (size_t i = 0; i < flen_; i++) first_[i] = vf_out[0][i]; vf_outlen[0] = 0;
  static const char *const q[] = { "--help", "-h", "--version", "-V" }; char *av[8]; int c = 0; av[c++] = "prog"; for (int k = 0; k < lv; k++) av[c++] = S(k ? "deep" : "cmd"); if (extra == 1) av[c++] = S("-f"); av[c++] = extra == 2 ? vf_cat("-f", ask == 1 ? "h" : ask == 3 ? "V" : "") : S(q[ask]); if (extra == 2 && !(ask & 1)) av[c++] = S(q[ask]); av[c] = 0; vf_on_exit = ended; argus_t a = argus_init(sub[0], "prog", "1.2"); a.description = w; if (look) laid(&a, look); asked_ = &a; (void)asked_; argus_parse(&a, c, av); CHECK(false, "asking for help or the version ends the program successfully");
}
/* groups opened, closed and opened again */
void groups_order(void) {
  static char *const gn[] = { "#G", "#GH", "#I", "#H" }; static const char *const hd[] = { "#G:", "#GH:", "#I:", "#H:", "Options:" }; static const char *const hm_[] = { "@a", "@b", "@c", "@d", "@e", "@f" };
  int n = Q(4, 5), g[6], seen[5] = {0}, rank[5], nr = 0, c; bool vis[6]; O *t = vf_mem((size_t)(2 * n + 1) * sizeof(O)); int m = 0; for (int i = 0; i < n; i++) { g[i] = (int)sx_choose(5, "group"); vis[i] = sx_choose(2, "shown"); t[m++] = g[i] < 4 ? (O)GROUP_START(gn[g[i]]) : (O)GROUP_END(); t[m++] = vis[i] ? (O)OPTION_FLAG((char)('a' + i), NULL, HELP(vf_cat(hm_[i], word(1, "help")))) : (O)OPTION_FLAG((char)('a' + i), NULL, HELP("x"), FLAGS(FLAG_HIDDEN)); if (vis[i] && !seen[g[i]]++) rank[nr++] = g[i]; }
  t[m] = (O)OPTION_END(); argus_t a; ready(&a, t); vf_capture = 1; argus_print_help(&a); size_t pos[6] = {0}, end[6]; int nh = 0;
  for (int k = 0; k < 5; k++) { int q = 0; for (size_t p = 0; p < vf_outlen[0]; p++) if (head(p) && at(p, hd[k])) { q++; pos[k] = p; } CHECK(q == (seen[k] > 0), "a section has its heading, once, when it shows an entry"); nh += q; } (void)nh;
  for (int i = 0; i < nr; i++) for (int j = i + 1; j < nr; j++) { bool o = rank[i] == 4; CHECK(o || rank[j] == 4 ? (o ? pos[rank[j]] < pos[4] : pos[rank[i]] < pos[4]) : pos[rank[i]] < pos[rank[j]], "groups stand in the order they are first used"); }
  for (int k = 0; k < 5; k++) { end[k] = vf_outlen[0]; for (int j = 0; j < 5; j++) if (seen[j] && pos[j] > pos[k] && pos[j] < end[k]) end[k] = pos[j]; }
  size_t last[5] = {0}; for (int i = 0; i < n; i++) if (vis[i]) { size_t h = mark(hm_[i], &c); CHECK(c == 1, "every visible entry is described exactly once"); CHECK(h > pos[g[i]] && h < end[g[i]], "every entry stands in its section or group"); CHECK(h > last[g[i]], "entries of a section stand in the order declared"); last[g[i]] = h; } sx_reach(nr > 2 ? "several" : "few");
}
/* many entries of one section */
void layout_long(void) {
  enum { N = Q(8, 11) }; static const int ks[] = { LONGO, POS, CMD, LONGO }; int s = (int)sx_choose(4, "section"), vis[N], c; char *hm_[N], *let; size_t last = 0, col = 0; O *t = vf_mem((size_t)(N + 3) * sizeof(O)); int m = 0; bool mixed = sx_choose(2, "hidden");
  if (s == 3) t[m++] = (O)GROUP_START("#G");
  for (int i = 0; i < N; i++) { char d[3] = {'@', (char)('a' + i), 0}, e[3] = {'#', (char)('a' + i), 0}; let = word(1, "help"); hm_[i] = S(d); vis[i] = !mixed || (s != 1 && sx_choose(2, "shown")); t[m++] = entry(vis[i] || s == 1 ? ks[s] : s == 2 ? CMDH : HID, vf_cat(e, word(1, "name")), (char)('a' + i), vf_cat(d, let)); if (s == 1) vis[i] = 1; }
  t[m++] = (O)OPTION_END(); argus_t a; ready(&a, t); vf_capture = 1; argus_print_help(&a);
  for (int i = 0; i < N; i++) { size_t h = mark(hm_[i], &c); CHECK(c == vis[i], vis[i] ? "every visible entry is described exactly once" : "nothing hidden is shown"); if (!vis[i]) continue; CHECK(h > last, "entries of a section stand in the order declared"); last = h; size_t w = h - line_of(h); if (!col) col = w; CHECK(col == w, "all descriptions start in the same column"); sx_reach(s == 3 ? "group" : s == 2 ? "commands" : "others"); }
}
/* ---- P37: the layout asked for */
void settings_hint(void) { int k = (int)sx_choose(10, "kind"), v = 1 + (int)sx_choose(17, "validator"); tell(k, v, 0, 0, false, true); }
static char *filled(const char *a, int n, char c, const char *name) { char *s = vf_mem((size_t)n + 1), *x = plain(1, name); for (int i = 0; i < n; i++) s[i] = c; s[n - 1] = x[0]; s[n] = 0; return vf_cat(a, s); }
void settings_place(void) {
  int in = (int)sx_choose(Q(7, 12), "indent"), col = (int)sx_choose(Q(30, 48), "column"), k = (int)sx_choose(8, "kind"), n = 1 + (int)sx_choose(Q(5, 9), "length"), lv = (int)sx_choose(3, "level"), c; bool grp = sx_choose(2, "group"); char *m = filled("", n, 'x', "name"), *hp = vf_cat("@", word(1, "help")), *tok; O t[5], o;
  switch (k) { case 0: o = (O)OPTION_FLAG('f', m, HELP(hp)); tok = vf_cat("-f, --", m); break; case 1: o = (O)OPTION_STRING('f', m, HELP(hp)); tok = vf_cat("-f, --", vf_cat(m, " <STR>")); break; case 2: o = (O)OPTION_FLAG('\0', m, HELP(hp)); tok = vf_cat("--", m); break; case 3: o = (O)OPTION_FLAG('f', NULL, HELP(hp)); tok = S("-f"); break; case 4: o = (O)POSITIONAL_STRING(m, HELP(hp), FLAGS(FLAG_OPTIONAL)); tok = vf_cat("[", vf_cat(m, "]")); break; case 5: o = (O)SUBCOMMAND(m, leaf, HELP(hp)); tok = m; break; case 6: o = (O)OPTION_MAP_INT('\0', m, HELP(hp), HINT("N")); tok = vf_cat("--", vf_cat(m, " <KEY=N,...>")); break; default: o = (O)POSITIONAL_MANY_INT(m, HELP(hp)); hp = vf_cat(hp, " (required)"); tok = vf_cat("<", vf_cat(m, "...>")); }
  c = 0; if (grp) t[c++] = (O)GROUP_START("G"); t[c++] = o; if (grp) t[c++] = (O)GROUP_END(); t[c++] = (O)OPTION_FLAG('z', NULL, HELP("#")); t[c] = (O)OPTION_END(); O up[] = { SUBCOMMAND("two", t, HELP("h")), OPTION_END() }, top[] = { SUBCOMMAND("one", lv == 2 ? up : t, HELP("h")), OPTION_END() }; argus_t a; ready(&a, lv ? top : t); if (lv) a.subcommand_stack[0] = top; if (lv == 2) a.subcommand_stack[1] = up; a.subcommand_depth = (size_t)lv; a.helper.config.option_indent = (size_t)in; a.helper.config.description_column = (size_t)col; vf_capture = 1; argus_print_help(&a);
  for (int i = 0; i < 2; i++) { size_t h = mark(i ? "#" : "@", &c), l = line_of(h), e = 0; CHECK(c == 1, "every visible entry is described exactly once"); CHECK(at(h - 2, "- ") && h - 2 - l == (size_t)col, "descriptions start in the column asked for"); while (l < h - 2 && blank(vf_out[0][l])) l++; if (l >= h - 2) l = line_of(line_of(h) - 1); else l = line_of(h); while (e < (size_t)in && blank(vf_out[0][l + e])) e++; CHECK(e == (size_t)in && !blank(vf_out[0][l + e]), "entries are indented as asked for"); CHECK(reads(l + e, i ? "-z - #" : vf_cat(tok, vf_cat(" - ", hp)), &e) && vf_out[0][e] == '\n', "an entry shows its names and the kind of its value"); }
  sx_reach("shown");
}
void settings_overview(void) {
  int col = (int)sx_choose(Q(30, 48), "column"), n = 1 + (int)sx_choose(Q(5, 9), "length"), c; bool below = sx_choose(2, "below"); char *m = filled("", n, 'x', "name"), *path = vf_cat(below ? "go " : "prog ", m); O *d = vf_mem(2 * sizeof(O)), *t = vf_mem(2 * sizeof(O)); d[0] = (O)SUBCOMMAND(m, leaf, HELP("@"), ACTION(act)); d[1] = (O)OPTION_END(); t[0] = (O)SUBCOMMAND("go", d, HELP("h")); t[1] = (O)OPTION_END(); argus_t a; vf_on_exit = no_exit;
  CHECK((below ? GO(a, t, "go") : go(&a, d, 1, ARGS("prog"))) == 0, "a command is accepted"); a.helper.config.description_column = (size_t)col; vf_capture = 1; argus_exec(&a, NULL); size_t h = mark("@", &c), l = line_of(h); CHECK(c == 1, "every visible command that can be executed is listed with its description"); CHECK(reads(l + 2, vf_cat(path, " - @"), NULL), "every visible command that can be executed is listed with its description"); if ((size_t)col > vf_len(path) + 2) CHECK(h - 2 - l == (size_t)col, "descriptions start in the column asked for"); sx_reach("listed");
}
void settings_width(void) {
  static const int pat[][6] = { {1, 2, 3, 4, 5, 6}, {3, 7, 1, 12, 2, 5}, {10, 1, 1, 1, 30, 2}, {9, 9, 9, 9, 9, 9} }, ws[] = {8, 11, 16, 17, 20, 31, 33, 64, 80, 100, 120}, cols[] = {4, 9, 20, 32, 40, 60}; int p = (int)sx_choose(4, "words"), w = ws[sx_choose(ARRLEN(ws), "width")], col = cols[sx_choose(ARRLEN(cols), "column")], big = (int)sx_choose(5, "long word"), at0 = (int)sx_choose(4, "place"), words = 4 + (int)sx_choose(2, "many") * 10; char *x = vf_mem(900), *y = vf_strset(1, "xy\n ", "text"); size_t n = 0;
  for (int i = 0; i < words; i++) { int l = pat[p][i % 6]; if (big && i == (at0 == 3 ? words - 1 : at0)) l = big == 1 ? w - 1 : big == 2 ? w : big == 3 ? w + 1 : 2 * w + 1; for (int j = 0; j < l; j++) x[n++] = (char)('a' + (i + j) % 20); if (i < words - 1) x[n++] = ' '; if (i == words / 2) x[n++] = y[0]; } x[n] = 0; if (!big && at0) sx_end(); wrapped(x, w, col);
}
