/* Preloaded library that takes a copy of a folder before every change made to a file in it,
   and once in the middle of each write: the copies are what a process that dies there leaves. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static __thread int inside;
static const char *dir(void) { return getenv("CRASH_DIR"); }

void crash_watch(const char *d, const char *s) {
  if (d && *d) { setenv("CRASH_DIR", d, 1); setenv("CRASH_SNAP", s, 1); }
  else { unsetenv("CRASH_DIR"); unsetenv("CRASH_SNAP"); }
}
static int under(const char *p) {
  const char *d = dir();
  char r[4096], f[4096];
  if (!d || inside) return 0;
  if (p[0] != '/') {
    if (!getcwd(f, sizeof f)) return 0;
    snprintf(r, sizeof r, "%s/%s", f, p);
    p = r;
  }
  return strncmp(p, d, strlen(d)) == 0 && p[strlen(d)] == '/';
}
static int ours(int fd) {
  char l[64], r[4096];
  if (!dir() || inside) return 0;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, r, sizeof r - 1);
  if (n <= 0) return 0;
  r[n] = 0;
  return under(r);
}
static void snap(void) {
  int e = errno, n;
  char to[4096], a[8192], b[8192], buf[65536];
  inside = 1;
  for (n = 0; n < 3000; n++) {
    snprintf(to, sizeof to, "%s/%04d", getenv("CRASH_SNAP"), n);
    if (mkdir(to, 0755) == 0) break;
    if (errno != EEXIST) { inside = 0; errno = e; return; }
  }
  DIR *d = opendir(dir());
  if (d) {
    struct dirent *x;
    while ((x = readdir(d))) {
      if (x->d_name[0] == '.') continue;
      snprintf(a, sizeof a, "%s/%s", dir(), x->d_name);
      snprintf(b, sizeof b, "%s/%s", to, x->d_name);
      int i = syscall(SYS_openat, AT_FDCWD, a, O_RDONLY, 0), o = syscall(SYS_openat, AT_FDCWD, b, O_WRONLY | O_CREAT | O_TRUNC, 0644);
      ssize_t k;
      if (i >= 0 && o >= 0) while ((k = syscall(SYS_read, i, buf, sizeof buf)) > 0) syscall(SYS_write, o, buf, k);
      if (i >= 0) close(i);
      if (o >= 0) close(o);
    }
    closedir(d);
  }
  inside = 0;
  errno = e;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (!ours(fd)) return real(fd, b, n);
  snap();
  if (n > 1) { ssize_t k = real(fd, b, n / 2); if (k != (ssize_t)(n / 2)) return k; snap(); ssize_t m = real(fd, (const char *)b + k, n - k); return m < 0 ? k : k + m; }
  return real(fd, b, n);
}
#define PW(name, off) ssize_t name(int fd, const void *b, size_t n, off o) { \
  REAL(name); \
  if (!ours(fd)) return real(fd, b, n, o); \
  snap(); \
  if (n > 1) { ssize_t k = real(fd, b, n / 2, o); if (k != (ssize_t)(n / 2)) return k; snap(); ssize_t m = real(fd, (const char *)b + k, n - k, o + k); return m < 0 ? k : k + m; } \
  return real(fd, b, n, o); }
PW(pwrite, off_t)
PW(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(writev); if (ours(fd)) snap(); return real(fd, v, c); }
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { REAL(pwritev); if (ours(fd)) snap(); return real(fd, v, c, o); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { REAL(pwritev64); if (ours(fd)) snap(); return real(fd, v, c, o); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (ours(fd)) snap(); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (ours(fd)) snap(); return real(fd, n); }
int truncate(const char *p, off_t n) { REAL(truncate); if (under(p)) snap(); return real(p, n); }
int rename(const char *a, const char *b) { REAL(rename); if (under(a) || under(b)) snap(); return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); if (under(a) || under(b)) snap(); return real(x, a, y, b); }
int unlink(const char *a) { REAL(unlink); if (under(a)) snap(); return real(a); }
int unlinkat(int x, const char *a, int f) { REAL(unlinkat); if (under(a)) snap(); return real(x, a, f); }
int remove(const char *a) { REAL(remove); if (under(a)) snap(); return real(a); }
int link(const char *a, const char *b) { REAL(link); if (under(b)) snap(); return real(a, b); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) {
  REAL(copy_file_range);
  if (ours(o)) { snap(); if (n > 2048) n = 2048; }
  return real(i, a, o, b, n, f);
}
ssize_t sendfile(int o, int i, off_t *p, size_t n) { REAL(sendfile); if (ours(o)) { snap(); if (n > 2048) n = 2048; } return real(o, i, p, n); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { REAL(sendfile64); if (ours(o)) { snap(); if (n > 2048) n = 2048; } return real(o, i, p, n); }
#define OPENBODY(call) \
  mode_t m = 0; \
  if (f & (O_CREAT | O_TMPFILE)) { va_list l; va_start(l, f); m = va_arg(l, mode_t); va_end(l); } \
  if ((f & (O_CREAT | O_TRUNC)) && under(p)) snap(); \
  return call;
int open(const char *p, int f, ...) { REAL(open); OPENBODY(real(p, f, m)) }
int open64(const char *p, int f, ...) { REAL(open64); OPENBODY(real(p, f, m)) }
int openat(int d, const char *p, int f, ...) { REAL(openat); OPENBODY(real(d, p, f, m)) }
int openat64(int d, const char *p, int f, ...) { REAL(openat64); OPENBODY(real(d, p, f, m)) }
int creat(const char *p, mode_t m) { REAL(creat); if (under(p)) snap(); return real(p, m); }
