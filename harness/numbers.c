/* Textual numbers and booleans against what the text denotes. */
#include "common.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
/* every way a value can reach an integer: the raw result is compared with the text */
enum { LONG_EQ, SHORT_ATT, SHORT_SEP, POSITIONAL, ENVIRON, VARIADIC, MAP, ARRAY, LATER, WAYS };
static int wrong_form(int way) { return way == VARIADIC || way == LATER || way == MAP ? ARGUS_ERROR_INVALID_VALUE : ARGUS_ERROR_INVALID_FORMAT; }
static unsigned deco; /* what else is declared of the option: a default, a limit that allows everything, flags, an earlier value */
static void adorn(O *o, bool fl) {
  if (deco & 1) { o->have_default = true; o->is_set = true; if (fl) o->value.as_float = sx_fvar("default"); else o->value.as_int64 = (int64_t)sx_var(64, "default"); o->default_value = o->value; }
  if ((deco & 2) && !fl) { validator_entry_t *e = vf_mem(sizeof *e), **l = vf_mem(2 * sizeof *l); *e = *V_RANGE(INT64_MIN, INT64_MAX); l[0] = e; l[1] = NULL; o->validators = l; }
  if (deco & 4) o->flags |= FLAG_HIDDEN | FLAG_ENV_OVERRIDE; if (deco & 16) o->hint = "HINT", o->help = "help";
}
static int parse_as(argus_t *a, int way, bool fl, char *text, argus_value_t *v, size_t *n) {
  static O tabI[] = { OPTION_INT('n', "num", ENV_VAR("NUM")), OPTION_MAP_INT('m', "map"), OPTION_ARRAY_INT('l', "list"), POSITIONAL_INT("pos", FLAGS(FLAG_OPTIONAL)), OPTION_END() };
  static O tabF[] = { OPTION_FLOAT('n', "num", ENV_VAR("NUM")), OPTION_MAP_FLOAT('m', "map"), OPTION_ARRAY_FLOAT('l', "list"), POSITIONAL_FLOAT("pos", FLAGS(FLAG_OPTIONAL)), OPTION_END() };
  static O tabVI[] = { POSITIONAL_MANY_INT("many", FLAGS(FLAG_OPTIONAL)), OPTION_END() }, tabVF[] = { POSITIONAL_MANY_FLOAT("many", FLAGS(FLAG_OPTIONAL)), OPTION_END() };
  O *o = fl ? TAB(tabF) : TAB(tabI), *ov = fl ? TAB(tabVF) : TAB(tabVI); if (deco) { adorn(&o[0], fl); adorn(&o[3], fl); o[3].flags &= ~(FLAG_HIDDEN | FLAG_ENV_OVERRIDE); }
  int st = 0; const char *nm = "num"; *n = 1; v->raw = 0;
  switch (way) {
    case LONG_EQ: st = deco & 8 ? GO(*a, o, S("-n7"), vf_cat("--num=", text)) : GO(*a, o, vf_cat("--num=", text)); break;
    case SHORT_ATT: sx_assume(text[0] != 0); st = GO(*a, o, vf_cat("-n", text)); break;
    case SHORT_SEP: st = deco & 8 ? GO(*a, o, S("--num=9"), S("-n"), text) : GO(*a, o, S("-n"), text); break;
    case POSITIONAL: nm = "pos"; st = GO(*a, o, S("--"), text); break;
    case ENVIRON: vf_env("NUM", text); st = deco & 4 && deco & 8 ? GO(*a, o, S("-n7")) : go(a, o, 1, ARGS(NULL)); break;
    case VARIADIC: nm = "many"; st = GO(*a, ov, S("--"), text); break;
    case LATER: nm = "many"; st = GO(*a, ov, S("--"), S("7"), text); break;
    case MAP: nm = "map"; st = GO(*a, o, vf_cat("--map=k=", text)); break;
    case ARRAY: nm = "list"; st = GO(*a, o, S("-l"), text); break;
  }
  sx_obs("status", (uint64_t)st);
  if (st == 0) {
    CHECK(argus_is_set(a, nm), "an accepted number is set");
    *n = argus_count(a, nm); if (way == LATER) { *n -= 1; CHECK(fl ? argus_array_get(a, nm, 0).as_float == 7 : argus_array_get(a, nm, 0).as_int64 == 7, "an earlier operand keeps its value"); }
    if (way == MAP) *v = argus_map_get(a, nm, "k"); else if (way == ARRAY || way == VARIADIC) *v = argus_array_get(a, nm, 0); else if (way == LATER) *v = argus_array_get(a, nm, 1); else *v = argus_get(a, nm);
  }
  return st;
}
static void int_case(int way, char *s) {
  char *end; argus_t a; argus_value_t v; size_t n;
  for (char *p = s; *p; p++) if (way == MAP || way == ARRAY) sx_assume(*p != ','); 
  sx_assume(!space(s[0]));
  if (way == ARRAY && *s) for (char *p = s + 1; *p; p++) sx_assume(*p != '-' && *p != ':'); /* ranges are decided elsewhere */
  int st = parse_as(&a, way, false, s, &v, &n);
  errno = 0; long long want = strtoll(s, &end, 10); bool range = errno == ERANGE, ok = end != s && *end == 0;
  if (!ok) { sx_reach("malformed"); CHECK(st == wrong_form(way) || (st != 0 && range), "text that is not an integer is rejected"); return; }
  if (range) { sx_reach("out of range"); CHECK(st == (way == ARRAY ? ARGUS_ERROR_INVALID_FORMAT : ARGUS_ERROR_INVALID_VALUE), "an integer beyond 64 bits is rejected"); return; }
  sx_reach("accepted");
  CHECK(st == 0, "an integer within 64 bits is accepted");
  CHECK(n == 1, "one number is one value");
  CHECK(v.as_int64 == want, "the value read back is the integer that was written");
}
void int_any(void) { int w = (int)sx_choose(WAYS, "way"); int_case(w, vf_strmax(Q(8, 10), "text")); }
/* sign and 17..20 digits: both sides of the 64-bit limits */
void int_long(void) {
  int w = (int)sx_choose(WAYS, "way"); size_t n = 17 + sx_choose(4, "digits"); int sg = (int)sx_choose(2, "sign");
  char *d = vf_mem(n + 2), *p = d; if (sg) *p++ = '-';
  sx_bytes(p, n, "digits"); for (size_t i = 0; i < n; i++) sx_assume(p[i] >= '0' && p[i] <= '9'); p[n] = 0;
  int_case(w, d);
}
/* sign and 8..12 digits: around the 32-bit limits */
void int_mid(void) {
  int w = (int)sx_choose(WAYS, "way"); size_t n = 8 + sx_choose(5, "digits"); int sg = (int)sx_choose(3, "sign");
  char *d = vf_mem(n + 2), *p = d; if (sg) *p++ = sg == 1 ? '-' : '+';
  sx_bytes(p, n, "digits"); for (size_t i = 0; i < n; i++) sx_assume(p[i] >= '0' && p[i] <= '9'); p[n] = 0;
  int_case(w, d);
}
/* whatever else is declared of the option */
static const int ways4[] = { LONG_EQ, SHORT_SEP, POSITIONAL, ENVIRON };
void int_declared(void) {
  static const char *const t[] = {"4294967", "2147483", "-2147483", "9223372036854775", "-9223372036854775", "", "-", "1234", "99999999"}; deco = 1 + (unsigned)sx_choose(31, "declared"); int_case(ways4[sx_choose(4, "way")], vf_cat(t[sx_choose(ARRLEN(t), "number")], vf_strset(sx_choose(4, "length"), Q("0178x", "0123456789x"), "digits")));
}
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static void float_case(int way, char *s) {
  char *end; argus_t a; argus_value_t v; size_t n;
  for (char *p = s; *p; p++) if (way == MAP || way == ARRAY) sx_assume(*p != ',');
  sx_assume(!space(s[0]));
  int st = parse_as(&a, way, true, s, &v, &n);
  double want = strtod(s, &end);
  if (end == s || *end) { sx_reach("malformed"); CHECK(st == wrong_form(way), "text that is not a number is rejected"); return; }
  for (char *p = s; *p; p++) if (*p == 'i' || *p == 'I' || *p == 'n' || *p == 'N') { CHECK(st == 0, "an infinity or a NaN is accepted as a number"); return; }
  sx_reach("accepted");
  CHECK(st == 0, "a decimal number is accepted");
  CHECK(n == 1, "one number is one value");
  CHECK(bits(v.as_float) == bits(want), "the value read back is the double nearest to the decimal written");
}
void float_any(void) { int w = (int)sx_choose(WAYS, "way"); float_case(w, vf_strmax(Q(3, 4), "text")); }
void float_dec(void) { int w = (int)sx_choose(WAYS, "way"); float_case(w, vf_strset(1 + sx_choose(Q(6, 8), "length"), "0123456789.-", "text")); }
void float_exp(void) { int w = (int)sx_choose(WAYS, "way"); char *m = vf_strset(1, "19", "mantissa"), *x = vf_strset(Q(3, 4), "-+0129", "exponent"); float_case(w, vf_cat(vf_cat(m, "e"), x)); }
/* k digits, a point, then digits: more digits than a float holds */
void float_long(void) {
  int w = (int)sx_choose(WAYS, "way"); size_t n = 9 + sx_choose(Q(3, 6), "digits"), dot = 1 + sx_choose(3, "point");
  char *d = vf_mem(n + 3); size_t k = 0; if (sx_choose(2, "sign")) d[k++] = '-';
  sx_bytes(d + k, n + 1, "digits"); for (size_t i = 0; i < n + 1; i++) if (i != dot) sx_assume(d[k + i] >= '0' && d[k + i] <= '9'); else sx_assume(d[k + i] == '.');
  d[k + n + 1] = 0; float_case(w, d);
}
/* next to the middle between two doubles, and at both ends of the range: rounded once */
void float_near(void) {
  static const char *const p[] = {"1.000000000000000111022302462515654042363166809082031", "1.0000000000000003330669073875469621270895004272460937", "9007199254740993.00000", "9007199254740992.99999", "0.10000000000000000555111512312578270211815834045410156", "72057594037927940", "1844674407370955161", "92233720368547758", "4503599627370497.5", "123456789012345678", "0.3000000000000000444089209850062616169452667236328125", "1.7976931348623157e30", "1.797693134862315807e30", "2.2250738585072011e-30", "2.2250738585072012e-30", "4.9406564584124654e-32", "2.4703282292062327208e-32", "0x1.00000000000008", "0x1.fffffffffffff7f", "0x1.000000000000080000"};
  int w = (int)sx_choose(WAYS, "way"); char *d = vf_strset(sx_choose(Q(3, 4), "digits"), "0123456789", "digits"); float_case(w, vf_cat(sx_choose(2, "sign") ? "-" : "", vf_cat(p[sx_choose(ARRLEN(p), "number")], d)));
}
void float_declared(void) {
  static const char *const t[] = {"16777217", "1.0000001", "-0.", "1e30", "", "9007199254740993", "1e-31"}; deco = 1 + (unsigned)sx_choose(31, "declared"); if (deco & 2) sx_end(); float_case(ways4[sx_choose(4, "way")], vf_cat(t[sx_choose(ARRLEN(t), "number")], vf_strset(sx_choose(4, "length"), Q("017.x", "0123456789.x"), "digits")));
}
void float_default(void) {
  double x = sx_fvar("default"); float y = (float)x; int64_t z = (int64_t)sx_var(64, "int"); argus_t a;
  O t[] = { OPTION_FLOAT('d', "dbl", DEFAULT(x)), OPTION_FLOAT('f', "flt", DEFAULT(y)), OPTION_INT('i', "int", DEFAULT(z)), OPTION_BOOL('b', "boo", DEFAULT(z > 0)), OPTION_STRING('s', "str", DEFAULT("text")), OPTION_END() };
  int st = go(&a, t, 1, ARGS(NULL));
  CHECK(st == 0, "defaults alone parse");
  CHECK(bits(argus_get(&a, "dbl").as_float) == bits(x), "a double default is read back unchanged");
  if (y == y) CHECK(argus_get(&a, "flt").as_float == (double)y, "a float default is read back unchanged");
  CHECK(argus_get(&a, "int").as_int64 == z, "an integer default is read back unchanged");
  CHECK(argus_get(&a, "boo").as_bool == (z > 0), "a boolean default is read back unchanged");
  CHECK(vf_eq(argus_get(&a, "str").as_string, "text"), "a string default is read back unchanged");
  CHECK(argus_is_set(&a, "dbl") && argus_is_set(&a, "str"), "an option with a default has a value");
  sx_reach("defaults");
}
/* booleans */
static const char *const T[] = {"1", "true", "yes", "y", "on", "0x1", "0b1"}, *const F[] = {"0", "false", "no", "n", "off", "0x0", "0b0"};
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static bool same(const char *s, const char *w) { for (; *w; s++, w++) if (low(*s) != *w) return false; return *s == 0; }
static int word(const char *s) { for (size_t i = 0; i < ARRLEN(T); i++) { if (same(s, T[i])) return 1; if (same(s, F[i])) return 0; } return -1; }
static void bool_case(int way, char *s) {
  static O tab[] = { OPTION_BOOL('n', "num", ENV_VAR("NUM")), OPTION_MAP_BOOL('m', "map"), POSITIONAL_BOOL("pos", FLAGS(FLAG_OPTIONAL)), OPTION_FLAG('g', "flg", ENV_VAR("FLG")), OPTION_END() };
  O *o = TAB(tab); argus_t a; int st = 0; for (int i = 0; deco && i < 4; i++) if (i != 1) { if (deco & 1 && i < 3) { o[i].have_default = o[i].is_set = true; o[i].value.as_bool = sx_choose(2, "default"); o[i].default_value = o[i].value; } if (deco & 4 && i != 2) o[i].flags |= FLAG_HIDDEN | FLAG_ENV_OVERRIDE; if (deco & 2) o[i].hint = "HINT"; } const char *nm = "num";
  switch (way) {
    case 0: st = deco & 8 ? GO(a, o, S("-n"), S(deco & 16 ? "yes" : "off"), vf_cat("--num=", s)) : GO(a, o, vf_cat("--num=", s)); break;
    case 1: st = GO(a, o, S("-n"), s); break;
    case 2: nm = "pos"; st = GO(a, o, S("--"), s); break;
    case 3: vf_env("NUM", s); st = deco & 4 && deco & 8 ? GO(a, o, S("--num"), S(deco & 16 ? "yes" : "off")) : go(&a, o, 1, ARGS(NULL)); break;
    case 5: nm = "flg"; vf_env("FLG", s); st = deco & 4 && deco & 8 ? GO(a, o, S("-g")) : go(&a, o, 1, ARGS(NULL)); break;
    case 4: nm = "map"; for (char *p = s; *p; p++) sx_assume(*p != ','); st = GO(a, o, vf_cat("--map=k=", s)); break;
  }
  sx_obs("status", (uint64_t)st);
  int want = word(s);
  if (want < 0) { sx_reach("rejected"); CHECK(st == (way == 4 ? ARGUS_ERROR_INVALID_VALUE : ARGUS_ERROR_INVALID_ARGUMENT), "a word outside the documented booleans is rejected"); return; }
  CHECK(st == 0, "a documented boolean word is accepted");
  if (want) sx_reach("true"); else sx_reach("false");
  CHECK(argus_is_set(&a, nm), "an accepted boolean is set");
  CHECK((way == 4 ? argus_map_get(&a, nm, "k") : argus_get(&a, nm)).as_bool == want, "a boolean word, in any letter case, has its documented value");
}
void bool_any(void) { int w = (int)sx_choose(6, "way"); bool_case(w, vf_strmax(Q(6, 7), "word")); }
void bool_declared(void) { static const char *const t[] = {"", "tru", "fals", "O", "0x", "n"}; deco = 1 + (unsigned)sx_choose(31, "declared"); int w = (int)sx_choose(6, "way"); bool_case(w, vf_cat(t[sx_choose(ARRLEN(t), "word")], vf_strset(sx_choose(Q(3, 4), "length"), "eE01nfo ", "end"))); }
/* a boolean given again takes the last value */
void bool_again(void) {
  static O tab[] = { OPTION_BOOL('n', "num", DEFAULT(true)), OPTION_END() };
  O *o = TAB(tab); argus_t a; int x = (int)sx_choose(ARRLEN(T) * 2, "first"), y = (int)sx_choose(ARRLEN(T) * 2, "second"), m = (int)ARRLEN(T);
  int st = GO(a, o, S("-n"), S(x < m ? T[x] : F[x - m]), vf_cat("--num=", y < m ? T[y] : F[y - m]));
  CHECK(st == 0, "documented words are accepted"); CHECK(argus_get(&a, "num").as_bool == (y < m), "the last boolean given wins, over the default too");
  sx_reach("twice");
}
