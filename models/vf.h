/* Interface between a harness, the symbolic engine and the native replay. */
#ifndef VF_H
#define VF_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
/* engine primitives (native replay: read back from a model file) */
void sx_bytes(void *p, size_t n, const char *name);           /* n unconstrained bytes */
uint64_t sx_var(int width, const char *name);                 /* an unconstrained value */
uint64_t sx_choose(uint64_t n, const char *name);             /* every value below n, one path each */
double sx_fvar(const char *name);
void sx_assume(bool c);
void sx_assert(bool c, const char *msg);
void sx_reach(const char *label);
void *sx_alloc(size_t n);
void sx_free(void *p);
size_t sx_live(void);
void sx_end(void);
uint64_t sx_conc(uint64_t v);
bool sx_is_sym(uint64_t v);
void sx_obs(const char *name, uint64_t v);                    /* compared with the native run */
void sx_log(const char *name, uint64_t v);
int sx_fmt_double(char *buf, size_t n, const char *fmt, double d);
double sx_strtod(const char *s, char **end);
double sx_strtof(const char *s, char **end);
double sx_strtold(const char *s, char **end);
size_t sx_heap_size(void *p);
void sx_error(const char *msg);
void sx_readable(const void *p, size_t n);

/* environment of the code under test */
extern long vf_fail_at;        /* the allocation (counted from 1) that fails; 0 none */
extern long vf_alloc_count;
extern int vf_alloc_failed;    /* an allocation did fail */
extern int vf_capture;         /* keep what is printed */
extern int vf_vague;           /* numbers that are not known may be printed as any */
#define VF_OUT_MAX 16384
extern char vf_out[2][VF_OUT_MAX]; /* 0 stdout, 1 stderr */
extern size_t vf_outlen[2];
extern void (*vf_on_exit)(int code);
bool vf_sinking(void); void vf_emit(int f, char c); /* what is printed: 0 stdout, 1 stderr */
extern int vf_fdmode, vf_fd_armed, vf_fd_fail, vf_fd_calls; extern size_t vf_read_chunk;
int vf_fd_open(void); int vf_fd_at(int fd);
void vf_env(const char *name, const char *value);

/* helpers */
char *vf_mem(size_t n);
char *vf_lit(const char *s);                       /* a copy with exact bounds */
char *vf_strn(size_t len, const char *name);       /* exactly len non-NUL bytes */
char *vf_strmax(size_t max, const char *name);     /* 0..max non-NUL bytes */
char *vf_strset(size_t len, const char *set, const char *name); /* exactly len bytes of the set */
char *vf_cat(const char *a, const char *b);
bool vf_in(char c, const char *set);
bool vf_eq(const char *a, const char *b);
size_t vf_len(const char *s);
bool vf_has(const char *hay, const char *needle);  /* concrete strings only */
int vf_count(const char *hay, const char *needle);
#define CHECK(c, msg) sx_assert((c) != 0, msg)
#define ARRLEN(a) (sizeof(a) / sizeof((a)[0]))
#endif
