/* The symbolic build's reading of a pattern: the pattern (concrete) is interpreted
   over the text (symbolic bytes) without branching on the text.  A set of positions
   is a row of 0/1 bytes, some symbolic; each construct maps the positions where it
   may start to those where it may end.  What is not understood does not compile;
   the native build, which asks PCRE2 itself, then decides. */
#include "vf.h"
#include "pcre2.h"
#define NP 320
#define NC 768
typedef struct { int lo, hi; unsigned char b[NP]; } set; /* nothing outside lo..hi */
static const char *pat, *end, *base, *txt; static int n, bad, depth; static uint32_t opt;
#define NK 400
static unsigned char cval[NK][NP], cknown[NK][NP]; static short cidx[NC]; static int ccount;

static void none(set *s) { s->lo = 1; s->hi = 0; }
static bool empty(const set *s) { return s->lo > s->hi; }
static bool zero(unsigned char v) { return !sx_is_sym(v) && v == 0; }
static void trim(set *s) { while (s->lo <= s->hi && zero(s->b[s->lo])) s->lo++; while (s->lo <= s->hi && zero(s->b[s->hi])) s->hi--; }
static void copy(set *d, const set *s) { d->lo = s->lo; d->hi = s->hi; for (int i = s->lo; i <= s->hi; i++) d->b[i] = s->b[i]; }
static void put(set *s, int i, unsigned char v) {
  if (zero(v)) return;
  if (empty(s)) { s->lo = s->hi = i; s->b[i] = v; return; }
  while (i < s->lo) s->b[--s->lo] = 0;
  while (i > s->hi) s->b[++s->hi] = 0;
  s->b[i] |= v;
}
static void join(set *d, const set *s) { for (int i = s->lo; i <= s->hi; i++) put(d, i, s->b[i]); }
static void one(set *s, int i) { s->lo = s->hi = i; s->b[i] = 1; }

static unsigned char between(unsigned char c, int a, int b) { return (unsigned char)((c >= a) & (c <= b)); }
static unsigned char letter(unsigned char c) { return between(c, 'a', 'z') | between(c, 'A', 'Z'); }
static unsigned char esc(unsigned char c, char k) {
  unsigned char r = 0;
  switch (k) {
    case 'd': case 'D': r = between(c, '0', '9'); break;
    case 'w': case 'W': r = between(c, '0', '9') | letter(c) | (c == '_'); break;
    case 's': case 'S': r = between(c, 9, 13) | (c == ' '); break;
    case 'h': case 'H': r = (c == 9) | (c == ' ') | (c == 0xA0); break;
  }
  return k < 'a' ? r ^ 1 : r;
}
static bool isclass(char k) { return k == 'd' || k == 'D' || k == 'w' || k == 'W' || k == 's' || k == 'S' || k == 'h' || k == 'H'; }
static unsigned char folded(unsigned char c, int a, int b) { /* a..b, in either case if asked */
  unsigned char r = between(c, a, b);
  if (opt & PCRE2_CASELESS) r |= (letter(c) & between(c ^ 32, a, b));
  return r;
}
/* a literal byte after a backslash, or -1 */
static int hexd(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int literal(const char **p) {
  char k = *(*p)++;
  switch (k) {
    case 'n': return '\n'; case 't': return '\t'; case 'r': return '\r'; case 'f': return '\f'; case 'e': return 27; case 'a': return 7;
    case 'x': { int v = 0, d; for (int i = 0; i < 2 && *p < end && (d = hexd(**p)) >= 0; i++, (*p)++) v = v * 16 + d; return v; }
  }
  if ((k >= '0' && k <= '9') || (k >= 'a' && k <= 'z') || (k >= 'A' && k <= 'Z')) return -1;
  return (unsigned char)k;
}
static bool word(const char *p, const char *w) { for (; *w; p++, w++) if (p >= end || *p != *w) return false; return true; }
/* the single-byte construct at p: does byte c belong to it; *q is where it ends */
static unsigned char member(const char *p, unsigned char c, const char **q) {
  unsigned char r = 0;
  if (*p == '.') { r = opt & PCRE2_DOTALL ? 1 : c != '\n'; p++; }
  else if (*p == '\\') {
    p++; if (p >= end) { bad = 1; *q = p; return 0; }
    if (isclass(*p)) r = esc(c, *p++);
    else if (*p == 'N') { r = c != '\n'; p++; }
    else { int v = literal(&p); if (v < 0) bad = 1; r = folded(c, v, v); }
  } else if (*p == '[') {
    bool neg = false, first = true; p++;
    if (p < end && *p == '^') { neg = true; p++; }
    for (;; first = false) {
      if (p >= end) { bad = 1; break; }
      if (*p == ']' && !first) { p++; break; }
      if (word(p, "[:")) {
        static const char *const names[] = { "[:digit:]", "[:alpha:]", "[:alnum:]", "[:upper:]", "[:lower:]", "[:space:]", "[:xdigit:]", "[:word:]", "[:punct:]" }; int k = 0;
        while (k < 9 && !word(p, names[k])) k++;
        if (k == 9 || (opt & PCRE2_CASELESS)) { bad = 1; break; }
        p += vf_len(names[k]); unsigned char d = between(c, '0', '9'), l = letter(c);
        r |= k == 0 ? d : k == 1 ? l : k == 2 ? d | l : k == 3 ? between(c, 'A', 'Z') : k == 4 ? between(c, 'a', 'z') : k == 5 ? esc(c, 's') : k == 6 ? d | between(c, 'a', 'f') | between(c, 'A', 'F') : k == 7 ? esc(c, 'w') : between(c, 33, 126) & ((d | l) ^ 1);
        continue;
      }
      int a;
      if (*p == '\\') {
        p++; if (p >= end) { bad = 1; break; }
        if (isclass(*p)) { r |= esc(c, *p++); continue; }
        if (*p == 'b') { a = 8; p++; } else a = literal(&p);
        if (a < 0) { bad = 1; break; }
      } else a = (unsigned char)*p++;
      if (p + 1 < end && *p == '-' && p[1] != ']') {
        if (p[1] == '\\' && p + 2 < end && isclass(p[2])) { bad = 1; break; }
        if (p[1] == '[') { bad = 1; break; }
        p++; int b;
        if (*p == '\\') { p++; b = p < end ? literal(&p) : -1; } else b = (unsigned char)*p++;
        if (b < a) { bad = 1; break; }
        r |= folded(c, a, b);
      } else r |= folded(c, a, a);
    }
    if (neg) r ^= 1;
  } else { r = folded(c, (unsigned char)*p, (unsigned char)*p); p++; }
  *q = p; return r;
}
static unsigned char at(const char *p, int i) { /* does the construct at p accept byte i of the text */
  int o = (int)(p - base); const char *q;
  if (cidx[o] < 0) { if (ccount == NK) { bad = 1; return 0; } for (int j = 0; j < n; j++) cknown[ccount][j] = 0; cidx[o] = (short)ccount++; }
  int k = cidx[o];
  if (!cknown[k][i]) { cval[k][i] = member(p, (unsigned char)txt[i], &q); cknown[k][i] = 1; }
  return cval[k][i];
}
static void alternatives(const set *in, set *out);
static unsigned char newline(int i) { return (unsigned char)((unsigned char)txt[i] == '\n'); }
/* one construct at pat, without its quantifier; false when it may not be quantified */
static bool atom(const set *in, set *out) {
  char c = *pat; none(out);
  if (c == '^') {
    pat++; for (int i = in->lo; i <= in->hi; i++) put(out, i, i == 0 ? in->b[i] : (opt & PCRE2_MULTILINE) && i < n ? in->b[i] & newline(i - 1) : 0);
    return false;
  }
  if (c == '$') {
    pat++;
    for (int i = in->lo; i <= in->hi; i++) {
      unsigned char e = i == n ? 1 : opt & PCRE2_MULTILINE ? newline(i) : i == n - 1 && !(opt & PCRE2_DOLLAR_ENDONLY) ? newline(i) : 0;
      put(out, i, in->b[i] & e);
    }
    return false;
  }
  if (c == '\\' && pat + 1 < end && (pat[1] == 'A' || pat[1] == 'z' || pat[1] == 'Z' || pat[1] == 'b' || pat[1] == 'B')) {
    char k = pat[1]; pat += 2;
    for (int i = in->lo; i <= in->hi; i++) {
      unsigned char e = k == 'A' ? i == 0 : k == 'z' ? i == n : k == 'Z' ? (i == n ? 1 : i == n - 1 ? newline(i) : 0) : (i > 0 ? esc((unsigned char)txt[i - 1], 'w') : 0) ^ (i < n ? esc((unsigned char)txt[i], 'w') : 0) ^ (k == 'B');
      put(out, i, in->b[i] & e);
    }
    return false;
  }
  if (c == '(') {
    int kind = 0, neg = 0, back = 0; const char *start; pat++;
    if (++depth > 20) { bad = 1; return false; }
    if (pat < end && *pat == '?') {
      if (word(pat, "?:")) pat += 2;
      else if (word(pat, "?=")) { kind = 1; pat += 2; } else if (word(pat, "?!")) { kind = 1; neg = 1; pat += 2; }
      else if (word(pat, "?<=")) { kind = 1; back = 1; pat += 3; } else if (word(pat, "?<!")) { kind = 1; neg = back = 1; pat += 3; }
      else { bad = 1; return false; }
    }
    start = pat;
    if (!kind) alternatives(in, out);
    else if (back) { /* a single byte before */
      const char *q; if (pat >= end || *pat == '(' || *pat == ')' || *pat == '^' || *pat == '$' || *pat == '|') { bad = 1; return false; }
      member(pat, 0, &q); if (bad || q >= end || *q != ')') { bad = 1; return false; }
      for (int i = in->lo; i <= in->hi; i++) put(out, i, in->b[i] & ((i > 0 ? at(start, i - 1) : 0) ^ neg));
      pat = q;
    } else {
      set no, r; none(&no); alternatives(&no, &r); const char *after = pat;
      for (int i = in->lo; i <= in->hi && !bad; i++) {
        if (zero(in->b[i])) continue;
        set s; unsigned char m = 0; one(&s, i); pat = start; alternatives(&s, &r);
        for (int k = r.lo; k <= r.hi; k++) m |= r.b[k];
        put(out, i, in->b[i] & (m ^ neg));
      }
      pat = after;
    }
    depth--;
    if (pat >= end || *pat != ')') { bad = 1; return false; }
    pat++; return !kind;
  }
  if (c == '*' || c == '+' || c == '?') { bad = 1; return false; }
  const char *p = pat, *q; member(p, 0, &q); if (bad) return false;
  for (int i = in->lo; i <= in->hi && i < n; i++) put(out, i + 1, zero(in->b[i]) ? 0 : in->b[i] & at(p, i));
  pat = q; return true;
}
static bool counts(int *lo, int *hi) { /* {m}, {m,} or {m,n} at pat */
  const char *p = pat + 1; int a = 0, b = -1, k = 0;
  while (p < end && *p >= '0' && *p <= '9') { a = a * 10 + (*p++ - '0'); k++; }
  if (!k) return false;
  if (p < end && *p == ',') { p++; k = 0; while (p < end && *p >= '0' && *p <= '9') { if (!k) b = 0; b = b * 10 + (*p++ - '0'); k++; } if (!k) b = -1; } else b = a;
  if (p >= end || *p != '}') return false;
  pat = p + 1; *lo = a; *hi = b; return true;
}
static void sequence(const set *in, set *out) {
  set cur; copy(&cur, in);
  while (pat < end && *pat != '|' && *pat != ')' && !bad) {
    const char *start = pat; set nxt, acc; int lo = 1, hi = 1;
    bool q = atom(&cur, &nxt); if (bad) break;
    char c = pat < end ? *pat : 0; const char *mark = pat;
    if (c == '*') { lo = 0; hi = -1; pat++; } else if (c == '+') { lo = 1; hi = -1; pat++; } else if (c == '?') { lo = 0; hi = 1; pat++; }
    else if (c == '{') counts(&lo, &hi);
    if (pat == mark) { copy(&cur, &nxt); continue; }
    if (!q) { bad = 1; break; }
    if (pat < end && *pat == '?') pat++; else if (pat < end && (*pat == '+' || *pat == '*')) { bad = 1; break; }
    if (hi >= 0 && hi < lo) { bad = 1; break; }
    const char *after = pat;
    int done = 0; none(&acc); if (lo == 0) copy(&acc, &cur);
    for (; !empty(&cur) && (hi < 0 ? done < n + 1 + lo : done < hi); ) {
      if (done) { pat = start; atom(&cur, &nxt); }
      trim(&nxt); copy(&cur, &nxt); done++;
      if (done >= lo) join(&acc, &cur);
      if (bad) break;
    }
    pat = after; trim(&acc); copy(&cur, &acc);
  }
  copy(out, &cur);
}
static void alternatives(const set *in, set *out) {
  set r; sequence(in, out);
  while (!bad && pat < end && *pat == '|') { pat++; sequence(in, &r); join(out, &r); }
}
int vf_rx(const char *p, size_t plen, uint32_t copt, const char *t, size_t len, uint32_t mopt, bool compile_only) {
  set in, out; none(&in);
  if (plen >= NC || len >= NP || (copt & ~(uint32_t)(PCRE2_CASELESS | PCRE2_DOTALL | PCRE2_MULTILINE | PCRE2_DOLLAR_ENDONLY | PCRE2_ANCHORED | PCRE2_ENDANCHORED | PCRE2_NO_AUTO_CAPTURE | PCRE2_UTF | PCRE2_NO_UTF_CHECK)) || (mopt & ~(uint32_t)(PCRE2_ANCHORED | PCRE2_ENDANCHORED | PCRE2_NO_UTF_CHECK | PCRE2_NO_JIT))) return -1;
  pat = base = p; end = p + plen; txt = t; n = (int)len; bad = depth = 0; opt = copt | mopt; ccount = 0;
  for (int i = 0; i < NC; i++) cidx[i] = -1;
  if (!compile_only) { one(&in, 0); if (!(opt & PCRE2_ANCHORED)) for (int i = 1; i <= n; i++) put(&in, i, 1); }
  alternatives(&in, &out);
  if (bad || pat < end) return -1;
  unsigned char m = 0;
  for (int i = out.lo; i <= out.hi; i++) if (!(opt & PCRE2_ENDANCHORED) || i == n) m |= out.b[i];
  return m;
}
