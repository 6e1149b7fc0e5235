/* the predefined patterns, and patterns of one's own: what they accept */
#include "common.h"
#include "argus/regex.h"
extern int vf_regex_real;
typedef unsigned char U;
static U in(U c, int a, int b) { return (U)((c >= a) & (c <= b)); }
static U dg(U c) { return in(c, '0', '9'); }
static U al(U c) { return in(c, 'a', 'z') | in(c, 'A', 'Z'); }
static U an(U c) { return dg(c) | al(c); }
static U hx(U c) { return dg(c) | in(c, 'a', 'f') | in(c, 'A', 'F'); }
static U sp(U c) { return in(c, 9, 13) | (c == ' '); }
static U of(U c, const char *set) { U r = 0; for (; *set; set++) r |= c == (U)*set; return r; }
static int v2(const U *s) { return (s[0] - '0') * 10 + (s[1] - '0'); }
static U not(U x) { return x ^ 1; }
/* apply a pattern to a text through the library */
static void judge(regex_data_t r, const char *text, U want) {
  argus_t a; O t[] = { OPTION_STRING('s', "str", VALIDATOR(V_REGEX(r))), OPTION_END() };
  vf_regex_real = 1; vf_on_exit = no_exit; int st = GO(a, TAB(t), vf_cat("--str=", text)); sx_obs("status", (uint64_t)st);
  if (st == 0) { sx_reach("accepted"); CHECK(want, "a text that is not of the kind described is refused"); CHECK(argus_get(&a, "str").as_string[0] == text[0], "an accepted text is stored"); }
  else { sx_reach("refused"); CHECK(not(want), "a text of the kind described is accepted"); CHECK(st == ARGUS_ERROR_INVALID_VALUE, "a refused text is an invalid value"); }
  argus_free(&a);
}
/* the kinds of text, each from its description; n is known, the bytes are not */
typedef U kind(const U *s, int n);
static U octet(const U *s, int n) { U ok = 1; int v = 0; for (int i = 0; i < n; i++) { ok &= dg(s[i]); v = v * 10 + (s[i] - '0'); } return ok & (v <= 255); }
static U dotted(const U *s, int n) {
  U r = 0;
  for (int a = 1; a <= 3; a++) for (int b = 1; b <= 3; b++) for (int c = 1; c <= 3; c++) { int d = n - a - b - c - 3; if (d < 1 || d > 3) continue;
    r |= octet(s, a) & (s[a] == '.') & octet(s + a + 1, b) & (s[a + b + 1] == '.') & octet(s + a + b + 2, c) & (s[a + b + c + 2] == '.') & octet(s + a + b + c + 3, d); }
  return r;
}
/* groups of up to four digits; eight, or fewer with one "::" */
static U colons(const U *s, int n) {
  U ok = n >= 2; int groups = 0, gaps = 0;
  for (int i = 0; i < n; i++) {
    U c = s[i] == ':', p = i > 0 ? s[i - 1] == ':' : 0; ok &= hx(s[i]) | c;
    if (i >= 2) ok &= not(c & p & (s[i - 2] == ':'));
    if (i >= 4) ok &= c | (s[i - 1] == ':') | (s[i - 2] == ':') | (s[i - 3] == ':') | (s[i - 4] == ':');
    gaps += c & p; groups += i == 0 ? not(c) : not(c) & p;
  }
  if (n >= 2) { ok &= not(s[0] == ':') | (s[1] == ':'); ok &= not(s[n - 1] == ':') | (s[n - 2] == ':'); }
  return ok & (gaps <= 1) & ((gaps == 1) ? (U)(groups <= 7) : (U)(groups == 8));
}
static U domain(const U *s, int n) {
  U ok = n >= 1 && n <= 253, dots = 0, tail = 0;
  for (int i = 0; i < n; i++) {
    U d = s[i] == '.', h = s[i] == '-'; ok &= an(s[i]) | d | h; dots |= d;
    ok &= not(d) | (i > 0 && i + 1 < n ? not(s[i + 1] == '.') : 0);
    ok &= not(h) | (i > 0 && i + 1 < n ? not(s[i - 1] == '.') & not(s[i + 1] == '.') : 0);
    if (i >= 63) { U run = 1; for (int k = i - 63; k <= i; k++) run &= not(s[k] == '.'); U more = 0; for (int k = i + 1; k < n; k++) more |= s[k] == '.'; ok &= not(run & more); }
  }
  for (int k = 2; k < n; k++) { U t = s[n - 1 - k] == '.'; for (int i = n - k; i < n; i++) t &= al(s[i]); tail |= t; }
  return ok & dots & tail;
}
static U rest_of_url(const U *s, int n) { U ok = n >= 2; for (int i = 0; i < n; i++) ok &= not(sp(s[i])); if (n) ok &= not(of(s[0], "/$.?#")); return ok; }
static U url(const U *s, int n) {
  U r = 0;
  for (int k = 1; k + 3 <= n; k++) { if (!sx_is_sym(s[k]) && s[k] != ':') continue; U ok = al(s[0]); for (int i = 1; i < k; i++) ok &= an(s[i]) | of(s[i], "+.-"); r |= ok & (s[k] == ':') & (s[k + 1] == '/') & (s[k + 2] == '/') & rest_of_url(s + k + 3, n - k - 3); }
  return r;
}
static U starts(const U *s, int n, const char *w) { U r = 1; for (int i = 0; w[i]; i++) r &= i < n ? s[i] == (U)w[i] : 0; return r; }
static U http(const U *s, int n) { U r = 0; if (n > 7) r |= starts(s, n, "http://") & rest_of_url(s + 7, n - 7); if (n > 8) r |= starts(s, n, "https://") & rest_of_url(s + 8, n - 8); return r; }
static U port(const U *s, int n) { U ok = n >= 1 && n <= 5; long v = 0; for (int i = 0; i < n && i < 6; i++) { ok &= dg(s[i]); v = v * 10 + (s[i] - '0'); } return ok & (n ? s[0] != '0' : 0) & (v <= 65535); }
static U email(const U *s, int n) {
  U r = 0;
  for (int k = 1; k < n; k++) { /* the @ */
    if (!sx_is_sym(s[k]) && s[k] != '@') continue; U ok = s[k] == '@', t = 0; for (int i = 0; i < k; i++) ok &= an(s[i]) | of(s[i], "._%+-"); for (int i = k + 1; i < n; i++) ok &= an(s[i]) | of(s[i], ".-");
    for (int j = k + 2; j + 2 < n; j++) { if (!sx_is_sym(s[j]) && s[j] != '.') continue; U d = s[j] == '.'; for (int i = j + 1; i < n; i++) d &= al(s[i]); t |= d; }
    r |= ok & t;
  }
  return r;
}
static U email_strict(const U *s, int n) {
  U r = 0;
  for (int k = 1; k + 1 < n; k++) {
    if (!sx_is_sym(s[k]) && s[k] != '@') continue;
    U ok = s[k] == '@'; for (int i = 0; i < k; i++) ok &= an(s[i]) | of(s[i], ".!#$%&'*+/=?^_`{|}~-");
    for (int i = k + 1; i < n; i++) { U first = i == k + 1 ? 1 : s[i - 1] == '.', last = i + 1 == n ? 1 : s[i + 1] == '.'; ok &= an(s[i]) | ((s[i] == '.') & not(first | last)) | ((s[i] == '-') & not(first | last));
      if (i - k > 63) { U run = 1; for (int x = i - 63; x <= i; x++) run &= not(s[x] == '.'); ok &= not(run); } }
    r |= ok;
  }
  return r;
}
static U date(const U *s, int n) {
  if (n != 10) return 0; U ok = (s[4] == '-') & (s[7] == '-'); for (int i = 0; i < 10; i++) if (i != 4 && i != 7) ok &= dg(s[i]);
  return ok & (v2(s + 5) >= 1) & (v2(s + 5) <= 12) & (v2(s + 8) >= 1) & (v2(s + 8) <= 31);
}
static U datetime(const U *s, int n) {
  if (n != 19) return 0; U ok = date(s, 10) & (s[10] == 'T') & (s[13] == ':') & (s[16] == ':'); for (int i = 11; i < 19; i++) if (i != 13 && i != 16) ok &= dg(s[i]);
  return ok & (v2(s + 11) <= 23) & (v2(s + 14) <= 59) & (v2(s + 17) <= 59);
}
static U user(const U *s, int n) { U ok = n >= 3 && n <= 20; for (int i = 0; i < n; i++) ok &= an(s[i]) | of(s[i], "_-"); return ok; }
static U passwd(const U *s, int n) { U ok = n >= 8, d = 0, l = 0; for (int i = 0; i < n; i++) { ok &= an(s[i]); d |= dg(s[i]); l |= al(s[i]); } return ok & d & l; }
static U uuid(const U *s, int n) {
  if (n != 36) return 0; U ok = (s[14] == '4') & of(s[19], "89abAB");
  for (int i = 0; i < n; i++) ok &= i == 8 || i == 13 || i == 18 || i == 23 ? s[i] == '-' : hx(s[i]);
  return ok;
}
static U unix_path(const U *s, int n) { if (!n) return 0; U ok = s[0] == '/'; for (int i = 0; i < n; i++) ok &= s[i] != ' '; return ok; }
static U filename(const U *s, int n) {
  U r = 0;
  for (int e = 1; e <= 5 && e + 2 <= n; e++) { U ok = s[n - 1 - e] == '.'; for (int i = n - e; i < n; i++) ok &= al(s[i]); for (int i = 0; i < n - 1 - e; i++) ok &= an(s[i]) | of(s[i], "_,-") | sp(s[i]); r |= ok; }
  return r;
}
/* read with the set of states the text so far may be in */
static U semver(const U *s, int n) {
  U b[3] = {1, 0, 0}, z[3] = {0}, m[3] = {0}, pb = 0, pz = 0, pn = 0, px = 0, pa = 0, bb = 0, bi = 0;
  for (int i = 0; i < n; i++) {
    U c = s[i], d = dg(c), nz = in(c, '1', '9'), ze = c == '0', dot = c == '.', x = al(c) | (c == '-'), nb[3], nzz[3], nm[3], last = z[2] | m[2];
    for (int k = 0; k < 3; k++) { nzz[k] = b[k] & ze; nm[k] = (b[k] & nz) | (m[k] & d); nb[k] = k ? dot & (z[k - 1] | m[k - 1]) : 0; }
    U pend = pz | pn | pa, npb = (last & (c == '-')) | (pend & dot), npz = pb & ze, npn = (pb & nz) | (pn & d), npx = (pz | px) & d, npa = ((pb | pz | pn | px) & x) | (pa & (d | x));
    U nbb = ((last | pend) & (c == '+')) | (bi & dot), nbi = (bb | bi) & (d | x);
    for (int k = 0; k < 3; k++) { b[k] = nb[k]; z[k] = nzz[k]; m[k] = nm[k]; }
    pb = npb; pz = npz; pn = npn; px = npx; pa = npa; bb = nbb; bi = nbi;
  }
  return z[2] | m[2] | pz | pn | pa | bi;
}
static U pos_int(const U *s, int n) { U ok = n >= 1; for (int i = 0; i < n; i++) ok &= i ? dg(s[i]) : in(s[i], '1', '9'); return ok; }
static U neg_int(const U *s, int n) { return n < 2 ? 0 : (s[0] == '-') & pos_int(s + 1, n - 1); }
static U unsigned_float(const U *s, int n) { if (n < 1) return 0; U ok = dg(s[n - 1]); int dots = 0; for (int i = 0; i < n; i++) { ok &= dg(s[i]) | (s[i] == '.'); dots += s[i] == '.'; } return ok & (dots <= 1); }
static U decimal(const U *s, int n) { return n < 1 ? 0 : unsigned_float(s, n) | (of(s[0], "+-") & unsigned_float(s + 1, n - 1)); }
static U hexnum(const U *s, int n) { if (n < 3) return 0; U ok = (s[0] == '0') & (s[1] == 'x'); for (int i = 2; i < n; i++) ok &= hx(s[i]); return ok; }

static void any(regex_data_t r, kind *k, int lo, int hi) { int n = lo + (int)sx_choose((uint64_t)(hi - lo + 1), "length"); char *s = vf_strn((size_t)n, "text"); judge(r, s, k((U *)s, n)); }
static void some(regex_data_t r, kind *k, int lo, int hi, const char *set) { int n = lo + (int)sx_choose((uint64_t)(hi - lo + 1), "length"); char *s = vf_strset((size_t)n, set, "text"); judge(r, s, k((U *)s, n)); }
void re_ipv4(void) { any(ARGUS_RE_IPV4, dotted, 0, Q(17, 19)); }
void re_ipv6(void) { int n = (int)sx_choose(Q(8, 10), "length"); char *s = vf_strn((size_t)n, "text"); for (int i = 0; i < n; i++) sx_assume(s[i] != '%'); judge(ARGUS_RE_IPV6, s, colons((U *)s, n)); }
void re_ipv6_letters(void) { some(ARGUS_RE_IPV6, colons, 6, Q(18, 24), "a9F:"); }
void re_ipv6_full(void) { /* whole addresses: groups of every length, separators of every kind */
  char s[64]; int n = 0, g = (int)sx_choose(10, "groups"), gap = (int)sx_choose(11, "gap"); U *f = (U *)vf_strset(8, "0fA9g", "digits");
  for (int i = 0; i < g; i++) { int w = i < 2 ? 1 + (int)sx_choose(5, "digits") : 4; if (i) s[n++] = ':'; if (gap == i) s[n++] = ':'; for (int k = 0; k < w; k++) s[n++] = (char)(k < 4 ? f[(i & 1) * 4 + k] : 'a'); }
  if (gap >= g && gap < 10) { if (g == 0 || gap > g) s[n++] = ':'; s[n++] = ':'; } s[n] = 0;
  if (gap == 0 && g > 0) { /* a gap before the first group */ for (int k = n; k > 0; k--) s[k] = s[k - 1]; s[0] = ':'; n++; s[n] = 0; }
  char *x = S(s); judge(ARGUS_RE_IPV6, x, colons((U *)x, n));
}
/* with a dotted tail: only addresses; the usual forms of a mapped address among them */
void re_ipv6_dotted(void) {
  argus_t a; char *p = vf_strset(sx_choose(Q(9, 12), "prefix"), "f1:", "prefix"), *d[4], *x = p; bool usual = sx_choose(2, "usual"); U ok = 1;
  if (usual) p = x = S(sx_choose(2, "form") ? "::ffff:" : "::");
  for (int i = 0; i < 4; i++) { int n = 1 + (int)sx_choose(3, "octet"); d[i] = vf_strset((size_t)n, "0123456789", "octet"); ok &= octet((U *)d[i], n); x = vf_cat(x, d[i]); if (i < 3) x = vf_cat(x, "."); if (n > 1) sx_assume(d[i][0] != '0'); }
  char *w = vf_cat(p, "1:1"); O t[] = { OPTION_STRING('s', "str", VALIDATOR(V_REGEX(ARGUS_RE_IPV6))), OPTION_END() }; vf_regex_real = 1; vf_on_exit = no_exit; int st = GO(a, TAB(t), vf_cat("--str=", x));
  if (st == 0) { CHECK(ok & colons((U *)w, (int)vf_len(w)), "a text that is not an address is refused"); argus_free(&a); } else { CHECK(st == ARGUS_ERROR_INVALID_VALUE, "a refused text is an invalid value"); if (usual) CHECK(not(ok), "a mapped address is accepted"); }
}
void re_domain(void) { any(ARGUS_RE_DOMAIN, domain, 0, Q(14, 18)); }
void re_domain_long(void) {
  char s[300]; int n = 0, a = 61 + (int)sx_choose(4, "label"), labels = 1 + (int)sx_choose(4, "labels"), tail = (int)sx_choose(Q(8, 64), "tail"); char *x = vf_strset(2, "aZ0-.", "byte");
  for (int i = 0; i < labels; i++) { for (int k = 0; k < a; k++) s[n++] = 'b'; s[n++] = '.'; } s[0] = x[0]; s[a / 2] = x[1];
  for (int k = 0; k < tail; k++) s[n++] = 'c'; s[n] = 0; char *t = S(s); judge(ARGUS_RE_DOMAIN, t, domain((U *)t, n));
}
void re_url(void) { any(ARGUS_RE_URL, url, 0, Q(16, 20)); }
void re_http(void) { any(ARGUS_RE_HTTP, http, 0, Q(20, 24)); }
void re_port(void) { any(ARGUS_RE_PORT, port, 0, Q(9, 12)); }
void re_email(void) { any(ARGUS_RE_EMAIL, email, 0, Q(14, 17)); }
void re_email_strict(void) { any(ARGUS_RE_EMAIL_STRICT, email_strict, 0, Q(14, 17)); }
void re_email_long(void) {
  char s[200]; int n = 0, a = 60 + (int)sx_choose(6, "label"), b = (int)sx_choose(3, "more"); char *x = vf_strset(3, "aZ0-.@_", "byte");
  s[n++] = x[0]; s[n++] = '@'; for (int k = 0; k < a; k++) s[n++] = 'b'; s[2] = x[1]; s[2 + a / 2] = x[2]; if (b) { s[n++] = '.'; for (int k = 0; k < a + b - 2; k++) s[n++] = 'c'; } s[n] = 0;
  char *t = S(s); judge(ARGUS_RE_EMAIL_STRICT, t, email_strict((U *)t, n));
}
void re_date(void) { any(ARGUS_RE_ISO_DATE, date, 0, 13); }
void re_datetime(void) { any(ARGUS_RE_ISOTIME, datetime, 15, 22); }
void re_user(void) { any(ARGUS_RE_USER, user, 0, Q(26, 34)); }
void re_passwd(void) { any(ARGUS_RE_PASSWD, passwd, 0, Q(18, 24)); }
void re_uuid(void) { any(ARGUS_RE_UUID, uuid, 33, 38); }
void re_path(void) { any(ARGUS_RE_UNIX_PATH, unix_path, 0, Q(14, 17)); }
void re_filename(void) { any(ARGUS_RE_FILENAME, filename, 0, Q(18, 22)); }
void re_semver(void) { any(ARGUS_RE_SEMVER, semver, 0, Q(14, 17)); }
void re_integers(void) { if (sx_choose(2, "sign")) any(ARGUS_RE_NEG_INT, neg_int, 0, Q(14, 24)); else any(ARGUS_RE_POS_INT, pos_int, 0, Q(14, 24)); }
void re_float(void) { any(ARGUS_RE_FLOAT, decimal, 0, Q(18, 24)); }
void re_hex(void) { any(ARGUS_RE_HEX, hexnum, 0, Q(24, 30)); }

/* texts of any length, where a kind has no limit of its own */
void re_long(void) {
  static const int len[] = {20, 21, 24, 25, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257}; int n = len[sx_choose(ARRLEN(len), "length")], p = (int)sx_choose(12, "pattern"), at = (int)sx_choose(4, "place"); char *t = vf_mem((size_t)n + 1), *c = vf_strn(1, "byte"); at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 2 : n - 1;
  const struct { regex_data_t re; kind *k; const char *head, *fill, *tail; } x[] = { { ARGUS_RE_PASSWD, passwd, "a1", "b2C", "" }, { ARGUS_RE_PASSWD, passwd, "a", "b", "7" }, { ARGUS_RE_UNIX_PATH, unix_path, "/", "a/b.", "" }, { ARGUS_RE_FILENAME, filename, "a", "bC,d_-1 ", ".Txt" }, { ARGUS_RE_SEMVER, semver, "1.2", "3", ".4-a.b+c" }, { ARGUS_RE_SEMVER, semver, "0.0.0-", "a1-.", "z" }, { ARGUS_RE_POS_INT, pos_int, "9", "108", "" }, { ARGUS_RE_NEG_INT, neg_int, "-9", "108", "" }, { ARGUS_RE_FLOAT, decimal, "+", "108", ".5" }, { ARGUS_RE_HEX, hexnum, "0x", "aF9", "" }, { ARGUS_RE_HTTP, http, "https://", "ab.c/", "" }, { ARGUS_RE_EMAIL, email, "a@", "b-c", ".de" } };
  int h = (int)vf_len(x[p].head), f = (int)vf_len(x[p].fill), e = (int)vf_len(x[p].tail); for (int i = 0; i < n; i++) t[i] = i < h ? x[p].head[i] : i >= n - e ? x[p].tail[i - (n - e)] : x[p].fill[(i - h) % f]; t[at] = c[0]; t[n] = 0; judge(x[p].re, t, x[p].k((U *)t, n));
}
/* the shorthand validators apply the pattern of their name */
void re_names(void) {
  const struct { regex_data_t re; validator_entry_t *v; } t[] = {
#define R(x, y) { .re = ARGUS_RE_##x, .v = V_RE_##y() }
    R(IPV4, IPV4), R(IPV6, IPV6), R(DOMAIN, DOMAIN), R(URL, URL), R(HTTP, HTTP), R(PORT, PORT), R(EMAIL, EMAIL), R(EMAIL_STRICT, EMAIL_STRICT), R(ISO_DATE, ISO_DATE), R(ISOTIME, ISO_TIME),
    R(USER, USERNAME), R(PASSWD, PASSWORD), R(UUID, UUID), R(UNIX_PATH, UNIX_PATH), R(FILENAME, FILENAME), R(SEMVER, SEMVER), R(POS_INT, POS_INT), R(NEG_INT, NEG_INT), R(FLOAT, FLOAT), R(HEX, HEX) };
  int k = (int)sx_choose(ARRLEN(t), "pattern"); argus_t a; char *text = vf_strmax(2, "text"); int st[2]; validator_entry_t *w = t[k].v; regex_data_t r = t[k].re;
  CHECK(t[k].re.hint && t[k].re.hint[0], "a predefined pattern tells what it wants");
  for (int i = 0; i < 2; i++) { O o[] = { OPTION_STRING('s', "str", VALIDATOR(V_REGEX(r))), OPTION_END() }, p[] = { OPTION_STRING('s', "str", VALIDATOR(w)), OPTION_END() };
    vf_regex_real = 1; st[i] = GO(a, i ? TAB(p) : TAB(o), vf_cat("--str=", text)); if (st[i] == 0) argus_free(&a); }
  CHECK(st[0] == st[1], "the shorthand accepts what its pattern accepts"); CHECK(vf_eq(t[k].v->data.regex.pattern, t[k].re.pattern), "the shorthand stands for its pattern");
}
/* patterns of one's own: found anywhere, in the case given, unless the pattern says otherwise */
static U ab(const U *s, int n) { U r = 0; for (int i = 0; i + 1 < n; i++) r |= (s[i] == 'a') & dg(s[i + 1]); return r; }
static U xy(const U *s, int n) { return n < 1 ? 0 : (s[0] == 'x') | (s[n - 1] == 'y'); }
static U product(const U *s, int n) { if (n != 13) return 0; U ok = in(s[0], 'A', 'Z') & in(s[1], 'A', 'Z') & (s[6] == '-'); for (int i = 2; i < 6; i++) ok &= dg(s[i]); for (int i = 7; i < 13; i++) ok &= dg(s[i]) | in(s[i], 'A', 'Z'); return ok; }
static U company(const U *s, int n) { U r = 0; if (n < 13) return 0; U ok = starts(s + n - 12, 12, "@company.com"); for (int i = 0; i < n - 12; i++) ok &= an(s[i]) | of(s[i], "_.-"); return ok; }
static U nothing(const U *s, int n) { return 1; }
void re_own(void) {
  switch (sx_choose(6, "pattern")) {
    case 0: any(MAKE_REGEX("a[0-9]", "an a"), ab, 0, 5); break;
    case 1: any(MAKE_REGEX("^x|y$", "x or y"), xy, 0, 5); break;
    case 2: any(MAKE_REGEX("^[A-Z]{2}\\d{4}-[A-Z0-9]{6}$", "Format: XX0000-XXXXXX"), product, 11, 15); break;
    case 3: any(MAKE_REGEX("^[\\w.-]+@company\\.com$", "Must use company.com domain"), company, 11, 16); break;
    case 4: any(MAKE_REGEX("", "anything"), nothing, 0, 3); break;
    default: { char *w = vf_strset(3, "abc", "pattern"); const char *t = vf_strset(5, "abcA", "text"); U r = 0; for (int i = 0; i + 3 <= 5; i++) r |= (t[i] == w[0]) & (t[i + 1] == w[1]) & (t[i + 2] == w[2]); for (int i = 0; i < 3; i++) w[i] = (char)sx_conc((U)w[i]); judge(MAKE_REGEX(w, "a piece"), t, r); }
  }
}
