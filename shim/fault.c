/* LD_PRELOAD stand-in for the file system calls of a tool: records what is done to the watched files and,
   on request, makes the k-th modification of the output file fail (once, or from then on) or kills the process
   just before it.  Environment: FT_LOG (event log), FT_OUT (base name of the output file), FT_MODE
   (none|once|full|kill), FT_AT (k, from 1). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/syscall.h>
static int logfd = -1, at = 0, count = 0, mode = 0;
static const char *outname = NULL;
static char isout[4096];
static int ready = 0;
static void init(void) {
  if (ready) return;
  ready = 1;
  const char *m = getenv("FT_MODE"), *l = getenv("FT_LOG"), *a = getenv("FT_AT");
  outname = getenv("FT_OUT");
  if (m && !strcmp(m, "once")) mode = 1;
  if (m && !strcmp(m, "full")) mode = 2;
  if (m && !strcmp(m, "kill")) mode = 3;
  if (a) at = atoi(a);
  if (l) { logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (logfd >= 0) { int n = fcntl(logfd, F_DUPFD, 500); if (n >= 0) { syscall(SYS_close, logfd); logfd = n; } } }
}
static void ev(const char *s, const char *p) {
  char b[600]; int n = snprintf(b, sizeof b, "%s %s\n", s, p ? p : "-");
  if (logfd >= 0) syscall(SYS_write, logfd, b, n);
}
static const char *base(const char *p) { const char *q = strrchr(p, '/'); return q ? q + 1 : p; }
/* 1: let it happen, 0: fail with errno set */
static int gate(void) {
  count++;
  if (mode == 3 && count == at) { ev("KILL", "-"); syscall(SYS_exit_group, 137); }
  if ((mode == 1 && count == at) || (mode == 2 && count >= at)) { ev("WFAIL", "-"); errno = ENOSPC; return 0; }
  ev("W", "-");
  return 1;
}
static void opened(int fd, const char *p, int fl) {
  if (fd < 0 || fd >= 4096) return;
  isout[fd] = 0;
  if (outname && !strcmp(base(p), outname)) { isout[fd] = 1; if (fl & O_CREAT) ev("CREATE", base(p)); }
}
#define REAL(t, n) static t (*real)() = NULL; if (!real) real = dlsym(RTLD_NEXT, n); init()
#define OPENFN(name) int name(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT|O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, int); va_end(v); } \
  REAL(int, #name); if (outname && !strcmp(base(p), outname) && (fl & O_CREAT)) { count++; if (mode == 3 && count == at) { ev("KILL", "-"); syscall(SYS_exit_group, 137); } \
    if ((mode == 1 && count == at) || (mode == 2 && count >= at)) { ev("CFAIL", "-"); errno = ENOSPC; return -1; } } \
  int fd = real(p, fl, m); opened(fd, p, fl); return fd; }
OPENFN(open)
OPENFN(open64)
#define OPENATFN(name) int name(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT|O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, int); va_end(v); } \
  REAL(int, #name); int fd = real(d, p, fl, m); opened(fd, p, fl); return fd; }
OPENATFN(openat)
OPENATFN(openat64)
#define ISO(fd) ((fd) >= 0 && (fd) < 4096 && isout[fd])
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, "write"); if (ISO(fd) && !gate()) return -1; return real(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, "pwrite"); if (ISO(fd) && !gate()) return -1; return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, "pwrite64"); if (ISO(fd) && !gate()) return -1; return real(fd, b, n, o); }
int ftruncate(int fd, off_t n) { REAL(int, "ftruncate"); if (ISO(fd) && !gate()) return -1; return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64"); if (ISO(fd) && !gate()) return -1; return real(fd, n); }
int close(int fd) { REAL(int, "close"); if (ISO(fd)) { isout[fd] = 0; ev("CLOSE", outname); } if (fd == logfd) return 0; return real(fd); }
/* removing or renaming a file is an event and a point where the process can be killed */
static void point(void) { count++; if (mode == 3 && count == at) { ev("KILL", "-"); syscall(SYS_exit_group, 137); } }
int unlink(const char *p) { REAL(int, "unlink"); point(); int r = real(p); if (r == 0) ev("UNLINK", base(p)); return r; }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat"); point(); int r = real(d, p, f); if (r == 0) ev("UNLINK", base(p)); return r; }
int remove(const char *p) { REAL(int, "remove"); point(); int r = real(p); if (r == 0) ev("UNLINK", base(p)); return r; }
int rename(const char *a, const char *b) { REAL(int, "rename"); point(); int r = real(a, b); if (r == 0) { ev("RENAME", base(a)); ev("RENAMETO", base(b)); } return r; }
