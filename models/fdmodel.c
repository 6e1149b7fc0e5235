/* A small kernel: descriptors, pipes and the buffer of the standard output.
   The same code serves the symbolic engine and the native replay. */
#include "vf.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/types.h>
int vf_fdmode;                 /* printing follows the descriptors */
int vf_fd_armed, vf_fd_fail = -1, vf_fd_calls; /* which call of pipe, dup and dup2 fails while armed */
size_t vf_read_chunk;          /* the most a read returns, 0 for no limit */
enum { NFD = 24, NPIPE = 8, PCAP = 12288, O_NONBL = 04000, F_GET = 3, F_SET = 4, F_DUP = 0, F_GETFD_ = 1, F_SETFD_ = 2 };
static int fds[NFD] = {1, 2, 3}; /* 0 closed, 1 to 3 the original streams, 4+2k read end of pipe k, 5+2k its write end */
static struct { char b[PCAP]; size_t n, at; int nonblock; } pp[NPIPE]; static int npp;
static char held[PCAP]; static size_t nheld; /* what the standard output buffers */
int vf_fd_open(void) { int n = 0; for (int i = 0; i < NFD; i++) n += fds[i] != 0; return n; }
int vf_fd_at(int fd) { return fds[fd]; }
static bool ok(int fd) { return fd >= 0 && fd < NFD && fds[fd] != 0; }
static int low(int from) { for (int i = from; i < NFD; i++) if (!fds[i]) return i; return -1; }
static bool fail(void) { if (!vf_fd_armed) return false; return vf_fd_calls++ == vf_fd_fail; }
static void to_obj(int o, char c) {
  if (o >= 4 && (o & 1)) { int k = (o - 5) / 2; if (pp[k].n >= PCAP) sx_error("a pipe is full, the program would wait forever"); pp[k].b[pp[k].n++] = c; return; }
  if (o == 2 || o == 3) { int f = o - 2; if (vf_capture && vf_outlen[f] < VF_OUT_MAX - 1) { vf_out[f][vf_outlen[f]++] = c; vf_out[f][vf_outlen[f]] = 0; } }
}
bool vf_sinking(void) { return vf_capture || vf_fdmode; }
void vf_emit(int f, char c) {
  if (!vf_fdmode) { to_obj(f + 2, c); return; }
  if (f == 0) { if (nheld < PCAP) held[nheld++] = c; } else to_obj(fds[2], c);
}
static void flush_out(void) { for (size_t i = 0; i < nheld; i++) to_obj(fds[1], held[i]); nheld = 0; }
static int m_pipe(int *p) {
  if (fail() || npp >= NPIPE) { errno = EMFILE; return -1; }
  int a = low(0); if (a < 0) { errno = EMFILE; return -1; } fds[a] = 4 + 2 * npp; int b = low(0); if (b < 0) { fds[a] = 0; errno = EMFILE; return -1; } fds[b] = 5 + 2 * npp; npp++; p[0] = a; p[1] = b; return 0;
}
static int m_dup(int fd, int from) { if (!ok(fd)) { errno = EBADF; return -1; } if (fail()) { errno = EMFILE; return -1; } int r = low(from); if (r < 0) { errno = EMFILE; return -1; } fds[r] = fds[fd]; return r; }
static int m_dup2(int a, int b) { if (!ok(a) || b < 0 || b >= NFD) { errno = EBADF; return -1; } if (fail()) { errno = EBUSY; return -1; } fds[b] = fds[a]; return b; }
static int m_close(int fd) { if (!ok(fd)) { errno = EBADF; sx_error("a descriptor that is not open is closed"); return -1; } fds[fd] = 0; return 0; }
static ssize_t m_read(int fd, void *b, size_t n) {
  if (!ok(fd) || fds[fd] < 4 || (fds[fd] & 1)) { errno = EBADF; return -1; }
  int k = (fds[fd] - 4) / 2; size_t a = pp[k].n - pp[k].at; if (a > n) a = n; if (vf_read_chunk && a > vf_read_chunk) a = vf_read_chunk;
  if (!a) { bool wr = false; for (int i = 0; i < NFD; i++) wr |= fds[i] == 5 + 2 * k; if (!wr) return 0; if (!pp[k].nonblock) sx_error("reading an empty pipe waits forever"); errno = EAGAIN; return -1; }
  for (size_t i = 0; i < a; i++) ((char *)b)[i] = pp[k].b[pp[k].at + i];
  pp[k].at += a; return (ssize_t)a;
}
static ssize_t m_write(int fd, const void *b, size_t n) { if (!ok(fd)) { errno = EBADF; return -1; } for (size_t i = 0; i < n; i++) to_obj(fds[fd], ((const char *)b)[i]); return (ssize_t)n; }
static int m_fcntl(int fd, int cmd, int arg) {
  if (!ok(fd)) { errno = EBADF; return -1; } int k = fds[fd] >= 4 ? (fds[fd] - 4) / 2 : -1;
  if (cmd == F_GET) return k >= 0 && pp[k].nonblock ? O_NONBL : 0; if (cmd == F_SET) { if (k >= 0) pp[k].nonblock = (arg & O_NONBL) != 0; return 0; } if (cmd == F_GETFD_ || cmd == F_SETFD_) return 0; if (cmd == F_DUP || cmd == 1030) return m_dup(fd, arg);
  sx_error("fcntl command without a model"); return -1;
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define N(f) __wrap_##f
#endif
#endif
#ifndef N
#define N(f) f
#endif
int N(pipe)(int *p) { return m_pipe(p); }
int N(pipe2)(int *p, int fl) { int r = m_pipe(p); if (!r && (fl & O_NONBL)) pp[npp - 1].nonblock = 1; return r; }
int N(dup)(int fd) { return m_dup(fd, 0); }
int N(dup2)(int a, int b) { return m_dup2(a, b); }
int N(dup3)(int a, int b, int f) { (void)f; return m_dup2(a, b); }
int N(close)(int fd) { return m_close(fd); }
ssize_t N(read)(int fd, void *b, size_t n) { return m_read(fd, b, n); }
ssize_t N(write)(int fd, const void *b, size_t n) { return m_write(fd, b, n); }
int N(fcntl)(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); int a = cmd == F_GET || cmd == F_GETFD_ ? 0 : va_arg(ap, int); va_end(ap); return m_fcntl(fd, cmd, a); }
int N(fflush)(FILE *f) { if (!f || f == stdout) flush_out(); return 0; }
int N(fileno)(FILE *f) { return f == stdin ? 0 : f == stdout ? 1 : 2; }
