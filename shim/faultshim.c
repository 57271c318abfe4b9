/* LD_PRELOAD shim: counts, records, fails, shortens or kills at the n-th file-system mutation below a watched directory.
   Controlled through the kps_* functions (ctypes).  Inactive until kps_arm() is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, COUNT, FAIL_ONCE, FAIL_FROM, SHORT, KILL_BEFORE, KILL_AFTER, SHORT_KILL, INTERRUPT };
static int mode, err_no, fired, n_calls, target, only_writes, capture_fd = -1;
static int mode2, target2, err2, later;    /* a second fault, at the n-th call after the first one fired */
static char prefix[PATH_MAX];
static char names[65536];
static size_t names_len;

void kps_arm(const char *dir, int m, int n, int e, int writes_only)
{
    snprintf(prefix, sizeof prefix, "%s", dir);
    target = n; err_no = e; only_writes = writes_only;
    fired = n_calls = later = mode2 = 0; names_len = 0; names[0] = 0;
    mode = m;
}
void kps_second(int m, int n, int e) { mode2 = m; target2 = n; err2 = e; }
int kps_later(void) { return later; }
void kps_disarm(void) { mode = OFF; }
int kps_calls(void) { return n_calls; }
int kps_fired(void) { return fired; }
const char *kps_log(void) { return names; }
void kps_capture(int fd) { capture_fd = fd; }

static int under(const char *path)
{
    char buf[PATH_MAX * 2];
    if (!path) return 0;
    if (path[0] != '/') {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(buf, sizeof buf, "%s/%s", cwd, path);
        path = buf;
    }
    size_t n = strlen(prefix);
    return n && !strncmp(path, prefix, n) && (path[n] == '/' || !path[n]);
}
static int under_fd(int fd)
{
    char link[64], buf[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t r = readlink(link, buf, sizeof buf - 1);
    if (r < 0) return 0;
    buf[r] = 0;
    return under(buf);
}
static int under_at(int dirfd, const char *path)
{
    if (!path) return 0;
    if (path[0] == '/' || dirfd == AT_FDCWD) return under(path);
    return under_fd(dirfd);
}
static void note(const char *what, const char *arg)
{
    int r = snprintf(names + names_len, sizeof names - names_len, "%s(%s)\n", what, arg ? arg : "");
    if (r > 0 && names_len + r < sizeof names) names_len += r;
}
/* 0: go on; 1: fail with err_no; 2: short; 3: go on and then die */
static int hit(const char *what, const char *arg, int is_write)
{
    if (mode == OFF) return 0;
    if (only_writes && !is_write) { note(what, arg); return 0; }
    int i = n_calls++;
    note(what, arg);
    if (mode == COUNT) return 0;
    if (fired) {
        int j = later++;
        if (mode2 && j == target2) {
            fired++;
            switch (mode2) {
            case FAIL_ONCE: err_no = err2; return 1;
            case KILL_BEFORE: syscall(SYS_exit_group, 77);
            case KILL_AFTER: return 3;
            case SHORT_KILL: if (is_write) return 4; syscall(SYS_exit_group, 77);
            }
        }
    }
    if (mode == FAIL_FROM ? i < target : i != target) return 0;
    fired++;
    switch (mode) {
    case FAIL_ONCE: case FAIL_FROM: return 1;
    case SHORT: return is_write ? 2 : 0;
    case INTERRUPT: raise(SIGINT); return 0;
    case KILL_BEFORE: syscall(SYS_exit_group, 77);
    case KILL_AFTER: return 3;
    case SHORT_KILL: if (is_write) return 4; syscall(SYS_exit_group, 77);
    }
    return 0;
}
static void die(void) { syscall(SYS_exit_group, 77); }
static void cap(const void *b, size_t n)
{
    if (capture_fd >= 0) while (n) { ssize_t r = syscall(SYS_write, capture_fd, b, n); if (r <= 0) break; b = (const char *)b + r; n -= r; }
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)
#define DO(cond, what, arg, is_write, call, T) \
    if (mode != OFF && (cond)) { int h = hit(what, arg, is_write); if (h == 1) { errno = err_no; return -1; } T r_ = call; if (h == 3) die(); return r_; } return call

#define OPEN_IMPL(fn, ...) \
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    REAL(fn);
#define MUT(flags) ((flags) & (O_CREAT | O_WRONLY | O_RDWR | O_TRUNC))
int open(const char *p, int flags, ...) { OPEN_IMPL(open) DO(MUT(flags) && under(p), "open", p, 0, real(p, flags, m), int); }
int open64(const char *p, int flags, ...) { OPEN_IMPL(open64) DO(MUT(flags) && under(p), "open", p, 0, real(p, flags, m), int); }
int openat(int d, const char *p, int flags, ...) { OPEN_IMPL(openat) DO(MUT(flags) && under_at(d, p), "openat", p, 0, real(d, p, flags, m), int); }
int openat64(int d, const char *p, int flags, ...) { OPEN_IMPL(openat64) DO(MUT(flags) && under_at(d, p), "openat", p, 0, real(d, p, flags, m), int); }
int creat(const char *p, mode_t m) { REAL(creat); DO(under(p), "creat", p, 0, real(p, m), int); }

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(write);
    if (mode == OFF || !under_fd(fd)) return real(fd, b, n);
    cap(b, n);
    int h = hit("write", "", 1);
    if (h == 1) { errno = err_no; return -1; }
    if (h == 2 || h == 4) n = n > 1 ? n / 2 : n;
    ssize_t r = real(fd, b, n);
    if (h >= 3) die();
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(pwrite64);
    if (mode == OFF || !under_fd(fd)) return real(fd, b, n, o);
    cap(b, n);
    int h = hit("pwrite", "", 1);
    if (h == 1) { errno = err_no; return -1; }
    if (h == 2 || h == 4) n = n > 1 ? n / 2 : n;
    ssize_t r = real(fd, b, n, o);
    if (h >= 3) die();
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(writev);
    if (mode != OFF && under_fd(fd)) for (int i = 0; i < c; i++) cap(v[i].iov_base, v[i].iov_len);
    DO(under_fd(fd), "writev", "", 1, real(fd, v, c), ssize_t);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { REAL(sendfile); DO(under_fd(o), "sendfile", "", 1, real(o, i, off, n), ssize_t); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { REAL(sendfile64); DO(under_fd(o), "sendfile", "", 1, real(o, i, off, n), ssize_t); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { REAL(copy_file_range); DO(under_fd(o), "copy_file_range", "", 1, real(i, io, o, oo, n, f), ssize_t); }
int rename(const char *a, const char *b) { REAL(rename); DO(under(a) || under(b), "rename", b, 0, real(a, b), int); }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); DO(under_at(d, a) || under_at(e, b), "renameat", b, 0, real(d, a, e, b), int); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { REAL(renameat2); DO(under_at(d, a) || under_at(e, b), "renameat2", b, 0, real(d, a, e, b, f), int); }
int unlink(const char *p) { REAL(unlink); DO(under(p), "unlink", p, 0, real(p), int); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); DO(under_at(d, p), "unlinkat", p, 0, real(d, p, f), int); }
int remove(const char *p) { REAL(remove); DO(under(p), "remove", p, 0, real(p), int); }
int truncate64(const char *p, off64_t n) { REAL(truncate64); DO(under(p), "truncate", p, 0, real(p, n), int); }
int truncate(const char *p, off_t n) { REAL(truncate); DO(under(p), "truncate", p, 0, real(p, n), int); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); DO(under_fd(fd), "ftruncate", "", 0, real(fd, n), int); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); DO(under_fd(fd), "ftruncate", "", 0, real(fd, n), int); }
int fsync(int fd) { REAL(fsync); DO(under_fd(fd), "fsync", "", 0, real(fd), int); }
int fdatasync(int fd) { REAL(fdatasync); DO(under_fd(fd), "fdatasync", "", 0, real(fd), int); }
int link(const char *a, const char *b) { REAL(link); DO(under(b), "link", b, 0, real(a, b), int); }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(linkat); DO(under_at(e, b), "linkat", b, 0, real(d, a, e, b, f), int); }
int symlink(const char *a, const char *b) { REAL(symlink); DO(under(b), "symlink", b, 0, real(a, b), int); }
int chmod(const char *p, mode_t m) { REAL(chmod); DO(under(p), "chmod", p, 0, real(p, m), int); }
int fchmod(int fd, mode_t m) { REAL(fchmod); DO(under_fd(fd), "fchmod", "", 0, real(fd, m), int); }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(fchmodat); DO(under_at(d, p), "fchmodat", p, 0, real(d, p, m, f), int); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); DO(under(p), "mkdir", p, 0, real(p, m), int); }
int rmdir(const char *p) { REAL(rmdir); DO(under(p), "rmdir", p, 0, real(p), int); }
int close(int fd)
{
    REAL(close);
    if (mode == OFF || !under_fd(fd)) return real(fd);
    int fl = fcntl(fd, F_GETFL);
    if (fl == -1 || (fl & O_ACCMODE) == O_RDONLY) return real(fd);
    int h = hit("close", "", 0);
    int r = real(fd);
    if (h == 1) { errno = err_no; return -1; }
    if (h >= 3) die();
    return r;
}
