/* Capturing the standard streams. */
#include "common.h"
#include "argus/internal/stream.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int init_[3]; static bool on[3]; static char want[3][16384], orig[3][16384]; static size_t nw[3], no[3], live0;
static void start(void) { vf_fdmode = 1; vf_capture = 1; for (int i = 0; i < 3; i++) { init_[i] = vf_fd_at(i); on[i] = false; nw[i] = no[i] = 0; } live0 = sx_live(); }
static void say(int fd, const char *t, size_t n) { FILE *f = fd == 1 ? stdout : stderr; for (size_t i = 0; i < n; i++) fputc(t[i], f); for (size_t i = 0; i < n; i++) { if (on[fd]) want[fd][nw[fd]++] = t[i]; else orig[fd][no[fd]++] = t[i]; } }
static void take(int fd) {
  char *r = stream_read(fd); bool some = fd < 3 && on[fd] && nw[fd];
  CHECK((r != NULL) == some, "something is read exactly when something was captured"); if (!r) return;
  sx_readable(r, nw[fd] + 1); bool same = true; for (size_t i = 0; i < nw[fd]; i++) same &= r[i] == want[fd][i]; CHECK(same && r[nw[fd]] == 0, "what was captured is what was printed"); free(r); nw[fd] = 0; sx_reach("captured");
}
static void standing(void) { int n = 3; for (int i = 0; i < 3; i++) { n += 2 * on[i]; CHECK((vf_fd_at(i) == init_[i]) == !on[i], "a stream is redirected exactly while it is captured"); CHECK((stream_is_active(i) != 0) == on[i], "the state reported is the real one"); } CHECK(vf_fd_open() == n, "no descriptor is left open"); }
static void finish_(void) { stream_cleanup_all(); for (int i = 0; i < 3; i++) { on[i] = false; nw[i] = 0; } standing(); fflush(stdout); for (int f = 1; f < 3; f++) { CHECK(vf_outlen[f - 1] == no[f], "what is printed outside a capture reaches the stream"); bool same = true; for (size_t i = 0; i < no[f] && i < vf_outlen[f - 1]; i++) same &= vf_out[f - 1][i] == orig[f][i]; CHECK(same, "what is printed outside a capture reaches the stream"); } CHECK(sx_live() == live0, "no memory is left behind"); }
static void redirect(int fd, bool may_fail) { vf_fd_armed = may_fail; int r = stream_redirect(fd); vf_fd_armed = 0; bool valid = fd >= 0 && fd < 3; if (valid) fd = (int)sx_conc((uint64_t)fd); if (!valid || on[fd]) { CHECK(r != 0, "a capture that cannot start is refused"); return; } bool failed = vf_fd_fail >= 0 && vf_fd_calls > vf_fd_fail && may_fail; if (failed) { sx_reach("call failed"); CHECK(r != 0, "a capture whose system call fails is refused"); vf_fd_fail = -1; } else { CHECK(r == 0, "a capture starts"); on[fd] = true; nw[fd] = 0; } }
static void restore(int fd) { stream_restore(fd); if (fd >= 0 && fd < 3) { on[fd] = false; nw[fd] = 0; } }
/* any sequence of calls, any one system call failing */
void schedule(void) {
  char *t = vf_strn(2, "text"); start(); vf_fd_fail = (int)(sx_var(8, "failing call") & 7); int n = Q(5, 6); vf_read_chunk = sx_choose(2, "short reads");
  for (int i = 0; i < n; i++) {
    unsigned op = (unsigned)(sx_var(8, "call") & 15); sx_assume(op < 10);
    switch (op) { case 0: redirect(1, true); break; case 1: redirect(2, true); break; case 2: take(1); break; case 3: take(2); break; case 4: restore(1); break; case 5: restore(2); break; case 6: say(1, t, 2); break; case 7: say(2, t, 1); break; case 8: stream_cleanup_all(); for (int k = 0; k < 3; k++) { on[k] = false; nw[k] = 0; } break; default: redirect(0, false); }
    standing();
  }
  finish_();
}
void twice(void) { /* start, print, read, print, read, restore, and again; in either order of the two streams */
  char *t = vf_strmax(3, "text"), *u = vf_strmax(3, "more"); size_t n = vf_len(t), m = vf_len(u); start(); int a = 1 + (int)sx_choose(2, "stream"), b = 3 - a; vf_read_chunk = sx_choose(2, "short reads");
  for (int k = 0; k < 2; k++) { say(a, u, m); redirect(a, false); say(a, t, n); redirect(b, false); say(b, u, m); take(a); say(a, u, m); take(b); say(a, t, n); take(a); say(b, t, n); restore(k ? a : b); standing(); say(k ? a : b, t, n); restore(k ? b : a); standing(); }
  finish_();
}
void large(void) { /* lengths around the size of the buffer */
  static const size_t len[] = {4094, 4095, 4096, 4097, 8191, 8192, 8193, 9000}; size_t n = len[sx_choose(8, "length")]; static char big[12000]; static const size_t ch[] = {0, 4095, 1000}; vf_read_chunk = ch[sx_choose(3, "short reads")];
  size_t at = sx_choose(4, "place"); at = at == 0 ? 0 : at == 1 ? 4094 : at == 2 ? n / 2 : n - 4; for (size_t i = 0; i < n; i++) big[i] = (char)('a' + i % 23); sx_bytes(big + at, 4, "text"); for (int i = 0; i < 4; i++) sx_assume(big[at + i] != 0); if (at + 4 > n) sx_end();
  start(); redirect(1, false); say(1, big, n); take(1); restore(1); standing(); finish_();
}
void invalid(void) { int fd = (int)sx_var(32, "descriptor"); start(); redirect(1, false); say(1, "x", 1); if (fd >= 0 && fd < 3) sx_end(); CHECK(stream_redirect(fd) != 0, "only the standard streams are captured"); CHECK(stream_read(fd) == NULL, "nothing is read from other descriptors"); stream_restore(fd); CHECK(!stream_is_active(fd), "other descriptors are never captured"); standing(); take(1); restore(1); finish_(); }
