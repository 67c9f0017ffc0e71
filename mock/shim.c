/* LD_PRELOAD: counts the file operations of a process below one directory, records them, and lets the k-th one fail or
   end the process there.  SHIM_DIR: absolute directory; SHIM_LOG: file for the record; SHIM_K, SHIM_MODE: which
   operation (or SHIM_OP, SHIM_PATH: the first such operation on that file) and what happens: kill (process is killed, a write half done), err (the operation fails once), full (it and
   every later one of open, write, mkdir fails with ENOSPC), short (a write stores half of its data and then behaves as full). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
static char dir[PATH_MAX]; static size_t dn; static int K = -1, n, full, logfd = -1, on, once; static char mode[16], wop[16], wpath[PATH_MAX];
#define NF 4096
static char *fdp[NF];
#define REAL(r, f, ...) static r (*real_##f)(__VA_ARGS__); if (!real_##f) real_##f = (r (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #f)
__attribute__((constructor)) static void init(void) {
  char *d = getenv("SHIM_DIR"), *l = getenv("SHIM_LOG"), *k = getenv("SHIM_K"), *m = getenv("SHIM_MODE");
  if (!d) return;
  strncpy(dir, d, sizeof dir - 1); dn = strlen(dir);
  if (k) K = atoi(k);
  char *wo = getenv("SHIM_OP"), *wp = getenv("SHIM_PATH");
  if (wo && wp) { strncpy(wop, wo, sizeof wop - 1); strncpy(wpath, wp, sizeof wpath - 1); }
  if (m) strncpy(mode, m, sizeof mode - 1);
  REAL(int, open, const char *, int, ...);
  if (l) logfd = real_open(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  unsetenv("LD_PRELOAD"); unsetenv("SHIM_DIR");
  on = 1;
}
static int below(const char *p, char *out) {
  if (!on || !p) return 0;
  char t[PATH_MAX], par[PATH_MAX];
  strncpy(t, p, sizeof t - 1); t[sizeof t - 1] = 0;
  size_t e = strlen(t); while (e > 1 && t[e - 1] == '/') t[--e] = 0;
  char *s = strrchr(t, '/'), *b = s ? s + 1 : t;
  if (s) { char c = *s; if (s == t) strcpy(par, "/"); else { *s = 0; if (!realpath(t, par)) { *s = c; if (t[0] == '/') { strcpy(par, t); *strrchr(par, '/') = 0; } else return 0; } *s = c; } }
  else if (!realpath(".", par)) return 0;
  snprintf(out, PATH_MAX, "%s/%s", par, b);
  return !strncmp(out, dir, dn) && (out[dn] == '/' || out[dn] == 0);
}
/* 0: go on, 1: fail, 2: fail after half of the data */
static int act(const char *op, const char *path, int iswrite, int fd, const void *buf, size_t len) {
  ++n;
  int hit = n == K || (*wop && !once && !strcmp(op, wop) && !strcmp(path + dn, wpath)), r = 0;
  if (hit) once = 1;
  if (hit && !strcmp(mode, "full")) full = 1;
  if (hit && !strcmp(mode, "short")) { full = 1; r = iswrite ? 2 : 1; }
  if (hit && !strcmp(mode, "err")) r = 1;
  if (full && !r && strcmp(op, "close")) r = 1;
  if (logfd >= 0) { char t[PATH_MAX + 80]; int l = snprintf(t, sizeof t, "%d %s %s %s\n", n, op, path + dn, hit ? "hit" : r ? "fail" : "ok"); REAL(ssize_t, write, int, const void *, size_t); if (real_write(logfd, t, l) < 0) {} }
  if (hit && !strcmp(mode, "kill")) {
    if (iswrite && len) { REAL(ssize_t, write, int, const void *, size_t); if (real_write(fd, buf, len / 2) < 0) {} }
    kill(getpid(), SIGKILL);
  }
  if (r) errno = full ? ENOSPC : strcmp(op, "open") ? EIO : EACCES;
  return r;
}
static void track(int fd, const char *p) { if (fd >= 0 && fd < NF) { free(fdp[fd]); fdp[fd] = strdup(p); } }
static const char *path(int fd) { return on && fd >= 0 && fd < NF ? fdp[fd] : 0; }
static int wr(int f) { return (f & O_ACCMODE) != O_RDONLY; }
#define OPENBODY(name, call) \
  mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } \
  char o[PATH_MAX]; int b = wr(f) && below(p, o); \
  if (b && act("open", o, 0, 0, 0, 0)) return -1; \
  int r = call; if (b) track(r, o); return r;
int open(const char *p, int f, ...) { REAL(int, open, const char *, int, ...); OPENBODY(open, real_open(p, f, m)) }
int open64(const char *p, int f, ...) { REAL(int, open64, const char *, int, ...); OPENBODY(open64, real_open64(p, f, m)) }
int openat(int d, const char *p, int f, ...) { REAL(int, openat, int, const char *, int, ...); OPENBODY(openat, real_openat(d, p, f, m)) }
int openat64(int d, const char *p, int f, ...) { REAL(int, openat64, int, const char *, int, ...); OPENBODY(openat64, real_openat64(d, p, f, m)) }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
#define FOPENBODY(call) char o[PATH_MAX]; int b = (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+')) && below(p, o); \
  if (b && act("open", o, 0, 0, 0, 0)) return 0; FILE *r = call; if (b && r) track(fileno(r), o); return r;
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); FOPENBODY(real_fopen(p, m)) }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); FOPENBODY(real_fopen64(p, m)) }
ssize_t write(int fd, const void *b, size_t l) {
  REAL(ssize_t, write, int, const void *, size_t);
  const char *p = path(fd);
  if (p) { int r = act("write", p, 1, fd, b, l); if (r == 1) return -1; if (r == 2 && l > 1) return real_write(fd, b, l / 2); if (r) return -1; }
  return real_write(fd, b, l);
}
ssize_t pwrite(int fd, const void *b, size_t l, off_t o) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); const char *p = path(fd); if (p && act("write", p, 0, fd, b, l)) return -1; return real_pwrite(fd, b, l, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  const char *p = path(fd);
  if (p) {
    size_t l = 0; for (int i = 0; i < c; i++) l += v[i].iov_len;
    char *b = malloc(l + 1), *q = b; for (int i = 0; i < c; i++) { memcpy(q, v[i].iov_base, v[i].iov_len); q += v[i].iov_len; }
    int r = act("write", p, 1, fd, b, l);
    REAL(ssize_t, write, int, const void *, size_t);
    ssize_t x = r == 1 || (r == 2 && l < 2) ? -1 : r == 2 ? real_write(fd, b, l / 2) : real_writev(fd, v, c);
    int e = errno; free(b); errno = e; return x;
  }
  return real_writev(fd, v, c);
}
size_t fwrite(const void *b, size_t s, size_t c, FILE *f) {
  REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
  const char *p = f ? path(fileno(f)) : 0;
  if (p && act("write", p, 0, 0, b, s * c)) return 0;
  return real_fwrite(b, s, c, f);
}
int close(int fd) {
  REAL(int, close, int);
  const char *p = path(fd);
  if (!p) return real_close(fd);
  int r = act("close", p, 0, 0, 0, 0), e = errno;
  free(fdp[fd]); fdp[fd] = 0;
  int x = real_close(fd);
  if (r) { errno = e; return -1; }
  return x;
}
int fclose(FILE *f) {
  REAL(int, fclose, FILE *);
  int fd = f ? fileno(f) : -1; const char *p = path(fd);
  if (!p) return real_fclose(f);
  int r = act("close", p, 0, 0, 0, 0), e = errno;
  free(fdp[fd]); fdp[fd] = 0;
  int x = real_fclose(f);
  if (r) { errno = e; return EOF; }
  return x;
}
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); char o[PATH_MAX]; struct stat s; if (below(p, o) && stat(p, &s) && act("mkdir", o, 0, 0, 0, 0)) return -1; return real_mkdir(p, m); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); char o[PATH_MAX]; if (below(b, o) && act("rename", o, 0, 0, 0, 0)) return -1; return real_rename(a, b); }
