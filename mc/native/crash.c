/* LD_PRELOAD shim: numbers the operations a process makes on files under one directory and stops it at (or fails) the chosen one.
   mode 0: count only   1: die before operation n   2: operation n, a write, writes only its first half, then die
        3: operation n fails with ENOSPC (once)      4: operation n fails with EACCES (once) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[PATH_MAX];
static long limit, count;
static int mode, armed;
static char fds[65536];
static char kinds[65536];

void mc_arm(const char *dir, int m, long n) { strncpy(root, dir, sizeof root - 1); mode = m; limit = n; count = 0; armed = 1; memset(fds, 0, sizeof fds); }
long mc_count(void) { return count; }
void mc_disarm(void) { armed = 0; }
const char *mc_kinds(void) { return kinds; }

static int under(const char *p) {
  if (!armed || !p) return 0;
  char b[PATH_MAX * 2];
  if (p[0] == '/') snprintf(b, sizeof b, "%s", p);
  else { char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) return 0; snprintf(b, sizeof b, "%s/%s", cwd, p); }
  return strncmp(b, root, strlen(root)) == 0;
}
/* 0 go on, 1 fail with errno set, 2 torn write */
static int op(char kind) {
  long n = ++count;
  if (n < (long)sizeof kinds - 1) kinds[n - 1] = kind, kinds[n] = 0;
  if (n != limit || mode == 0) return 0;
  if (mode == 1) _exit(77);
  if (mode == 2) { if (kind != 'w') _exit(77); return 2; }
  errno = mode == 3 ? ENOSPC : EACCES;
  return 1;
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)
#define OPENBODY(call) \
  int md = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); md = va_arg(ap, int); va_end(ap); } \
  int w = (flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) && under(path); \
  if (w && (flags & (O_CREAT | O_TRUNC)) && op('o')) return -1; \
  int fd = call; \
  if (fd >= 0 && fd < 65536) fds[fd] = w; \
  return fd;
int open(const char *path, int flags, ...) { REAL(open); OPENBODY(real(path, flags, md)) }
int open64(const char *path, int flags, ...) { REAL(open64); OPENBODY(real(path, flags, md)) }
int openat(int d, const char *path, int flags, ...) { REAL(openat); OPENBODY(real(d, path, flags, md)) }
int openat64(int d, const char *path, int flags, ...) { REAL(openat64); OPENBODY(real(d, path, flags, md)) }
static int mon(int fd) { return armed && fd >= 0 && fd < 65536 && fds[fd]; }
ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (mon(fd)) { int r = op('w'); if (r == 1) return -1; if (r == 2) { if (n / 2 && real(fd, b, n / 2) < 0) {} _exit(77); } }
  return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(pwrite);
  if (mon(fd)) { int r = op('w'); if (r == 1) return -1; if (r == 2) { if (n / 2 && real(fd, b, n / 2, o) < 0) {} _exit(77); } }
  return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(pwrite64);
  if (mon(fd)) { int r = op('w'); if (r == 1) return -1; if (r == 2) { if (n / 2 && real(fd, b, n / 2, o) < 0) {} _exit(77); } }
  return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev); if (mon(fd) && op('v') == 1) return -1; return real(fd, v, n); }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { REAL(fwrite); if (armed && mon(fileno(f)) && op('f') == 1) return 0; return real(p, s, n, f); }
int ftruncate(int fd, off_t l) { REAL(ftruncate); if (mon(fd) && op('t')) return -1; return real(fd, l); }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64); if (mon(fd) && op('t')) return -1; return real(fd, l); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n);
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { REAL(sendfile64); if (mon(o) && op('s') == 1) return -1; return real(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { REAL(copy_file_range); if (mon(o) && op('s') == 1) return -1; return real(i, io, o, oo, n, f); }
int fsync(int fd) { REAL(fsync); if (mon(fd) && op('y') == 1) return -1; return real(fd); }
int rename(const char *a, const char *b) { REAL(rename); if ((under(a) || under(b)) && op('r')) return -1; return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); if ((under(a) || under(b)) && op('r')) return -1; return real(x, a, y, b); }
int unlink(const char *a) { REAL(unlink); if (under(a) && op('u')) return -1; return real(a); }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); if (under(a) && op('u')) return -1; return real(d, a, f); }
int remove(const char *a) { REAL(remove); if (under(a) && op('u')) return -1; return real(a); }
int rmdir(const char *a) { REAL(rmdir); if (under(a) && op('u')) return -1; return real(a); }
int mkdir(const char *a, mode_t m) { REAL(mkdir); if (under(a) && op('m')) return -1; return real(a, m); }
int mkdirat(int d, const char *a, mode_t m) { REAL(mkdirat); if (under(a) && op('m')) return -1; return real(d, a, m); }
int link(const char *a, const char *b) { REAL(link); if (under(b) && op('l')) return -1; return real(a, b); }
int linkat(int x, const char *a, int y, const char *b, int f) { REAL(linkat); if (under(b) && op('l')) return -1; return real(x, a, y, b, f); }
int symlink(const char *a, const char *b) { REAL(symlink); if (under(b) && op('l')) return -1; return real(a, b); }
