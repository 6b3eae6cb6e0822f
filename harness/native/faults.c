/*
 * Interposes on the calls a process makes to the filesystem.  Once armed,
 * every call that touches something beneath one directory is numbered and
 * logged, and one of them (or all from one on) can be made to fail, or to
 * end the process.  Nothing is touched while not armed.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, ONCE, ONWARDS, CRASH, INTR, SHORTW, FULL, HALFCRASH };

static char pre[PATH_MAX];
static size_t prelen;
static int logfd = -1, mode, err_;
static long at = -1, count;
static int armed;

void faults_arm(const char *prefix, int fd, long k, int e, int m)
{
    strncpy(pre, prefix, sizeof pre - 1);
    prelen = strlen(pre);
    logfd = fd; at = k; err_ = e; mode = m; count = 0; armed = 1;
}
long faults_disarm(void) { armed = 0; return count; }

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static int inside(const char *p) { return p && !strncmp(p, pre, prelen) && (p[prelen] == '/' || !p[prelen]); }

/* the file meant, with links followed (all of them, or those of the directory only) */
static int full(int dirfd, const char *p, int follow, char *out)
{
    char buf[PATH_MAX * 2], dir[PATH_MAX], link[64];
    ssize_t n;
    if (!p) return 0;
    if (p[0] == '/' || dirfd == AT_FDCWD) {
        if (p[0] == '/') snprintf(buf, sizeof buf, "%s", p);
        else { if (syscall(SYS_getcwd, dir, sizeof dir) < 0) return 0; snprintf(buf, sizeof buf, "%s/%s", dir, p); }
    } else {
        snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        n = syscall(SYS_readlinkat, AT_FDCWD, link, dir, sizeof dir - 1);
        if (n < 0) return 0;
        dir[n] = 0;
        snprintf(buf, sizeof buf, "%s/%s", dir, p);
    }
    int was = errno, a = armed;
    armed = 0;
    char *r = NULL, *s;
    if (follow) r = realpath(buf, out);
    if (!r) {
        size_t l = strlen(buf);
        while (l > 1 && buf[l - 1] == '/') buf[--l] = 0;
        s = strrchr(buf, '/');
        char name[PATH_MAX];
        snprintf(name, sizeof name, "%s", s + 1);
        if (s == buf) s++;
        *s = 0;
        r = realpath(buf, dir);
        if (r) { snprintf(out, PATH_MAX, "%.*s/%s", PATH_MAX - 300, dir, name); r = out; }
    }
    armed = a;
    errno = was;
    return r != NULL;
}
static int fdpath(int fd, char *out)
{
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    int was = errno;
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, link, out, PATH_MAX - 1);
    errno = was;
    if (n < 0) return 0;
    out[n] = 0;
    return 1;
}
static void say(const char *kind, int fd, long flags, long n, long off, long res, const char *p, const char *q)
{
    char buf[PATH_MAX * 2 + 200];
    int was = errno;
    int l = snprintf(buf, sizeof buf, "%s\t%d\t%ld\t%ld\t%ld\t%ld\t%s\t%s\n", kind, fd, flags, n, off, res, p ? p : "", q ? q : "");
    if (logfd >= 0) syscall(SYS_write, logfd, buf, l);
    errno = was;
}
/* numbers the call; 1: it fails (errno set), 2: write only half */
static int step(int writing)
{
    long k = ++count;
    if (mode == CRASH && k == at) syscall(SYS_exit_group, 137);
    if (mode == INTR && k == at) raise(SIGINT);
    if ((mode == ONCE && k == at) || (mode == ONWARDS && k >= at) || (mode == FULL && k >= at && writing)) { errno = err_; return 1; }
    if ((mode == SHORTW || mode == HALFCRASH) && k >= at && writing) return 2;
    return 0;
}
static void half(void) { if (mode == HALFCRASH) syscall(SYS_exit_group, 137); if (mode == SHORTW) at = LONG_MAX; }
static long size_of(int fd) { struct stat st; return fstat(fd, &st) ? -1 : (long)st.st_size; }

/* --- opening --- */
static int open_at(int dirfd, const char *p, int flags, mode_t m, int (*go)(int, const char *, int, mode_t))
{
    char path[PATH_MAX];
    if (!armed || !full(dirfd, p, !(flags & O_NOFOLLOW), path) || !inside(path)) return go(dirfd, p, flags, m);
    long fl = (flags & O_CREAT ? 1 : 0) | (flags & O_TRUNC ? 2 : 0) | (flags & O_EXCL ? 4 : 0) | ((flags & O_ACCMODE) != O_RDONLY ? 8 : 0) | (flags & O_APPEND ? 16 : 0) | (flags & O_DIRECTORY ? 32 : 0);
    if ((flags & O_TMPFILE) == O_TMPFILE) { errno = EOPNOTSUPP; return -1; }
    if (step(0) == 1) { say("open", -1, fl, 0, 0, -1, path, 0); return -1; }
    int fd = go(dirfd, p, flags, m);
    say("open", fd, fl, 0, 0, fd < 0 ? -1 : 0, path, 0);
    return fd;
}
static int go_openat(int d, const char *p, int f, mode_t m) { return syscall(SYS_openat, d, p, f | O_LARGEFILE, m); }
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { MODE return open_at(AT_FDCWD, p, flags, m, go_openat); }
int open64(const char *p, int flags, ...) { MODE return open_at(AT_FDCWD, p, flags, m, go_openat); }
int openat(int d, const char *p, int flags, ...) { MODE return open_at(d, p, flags, m, go_openat); }
int openat64(int d, const char *p, int flags, ...) { MODE return open_at(d, p, flags, m, go_openat); }
int creat(const char *p, mode_t m) { return open_at(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, go_openat); }
int creat64(const char *p, mode_t m) { return open_at(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, go_openat); }
static FILE *fopen_(const char *p, const char *how, FILE *(*real)(const char *, const char *))
{
    char path[PATH_MAX];
    if (!armed || !full(AT_FDCWD, p, 1, path) || !inside(path)) return real(p, how);
    const char *kind = strpbrk(how, "wa+") ? "stream" : "fopen";
    if (step(0) == 1) { say(kind, -1, 0, 0, 0, -1, path, 0); return NULL; }
    FILE *f = real(p, how);
    say(kind, f ? fileno(f) : -1, 0, 0, 0, f ? 0 : -1, path, 0);
    return f;
}
FILE *fopen(const char *p, const char *how) { REAL(fopen); return fopen_(p, how, real); }
FILE *fopen64(const char *p, const char *how) { REAL(fopen64); return fopen_(p, how, real); }
int close(int fd)
{
    char path[PATH_MAX];
    if (!armed || !fdpath(fd, path) || !inside(path)) return syscall(SYS_close, fd);
    int s = step(0);
    int r = syscall(SYS_close, fd);
    if (s == 1) { errno = err_; r = -1; }
    say("close", fd, 0, 0, 0, r, path, 0);
    return r;
}

/* --- reading and writing --- */
ssize_t read(int fd, void *b, size_t n)
{
    char path[PATH_MAX];
    if (!armed || !fdpath(fd, path) || !inside(path)) return syscall(SYS_read, fd, b, n);
    /* (keys are read byte by byte) */
    if (n <= 1 || strstr(path, "/keys/")) return syscall(SYS_read, fd, b, n);
    if (step(0) == 1) { say("read", fd, 0, n, 0, -1, path, 0); return -1; }
    ssize_t r = syscall(SYS_read, fd, b, n);
    say("read", fd, 0, n, 0, r, path, 0);
    return r;
}
static long pos(int fd, int app) { return app ? size_of(fd) : syscall(SYS_lseek, fd, 0, SEEK_CUR); }
static int appends(int fd) { int f = fcntl(fd, F_GETFL); return f >= 0 && (f & O_APPEND); }
ssize_t write(int fd, const void *b, size_t n)
{
    char path[PATH_MAX];
    if (!armed || !fdpath(fd, path) || !inside(path)) return syscall(SYS_write, fd, b, n);
    long o = pos(fd, appends(fd));
    int s = step(1);
    if (s == 1) { say("write", fd, 0, 0, o, -1, path, 0); return -1; }
    if (s == 2 && n > 1) n /= 2;
    ssize_t r = syscall(SYS_write, fd, b, n);
    say("write", fd, 0, r < 0 ? 0 : r, o, r, path, 0);
    if (s == 2) half();
    return r;
}
static ssize_t pwrite_(int fd, const void *b, size_t n, off_t o)
{
    char path[PATH_MAX];
    if (!armed || !fdpath(fd, path) || !inside(path)) return syscall(SYS_pwrite64, fd, b, n, o);
    int s = step(1);
    if (s == 1) { say("write", fd, 0, 0, o, -1, path, 0); return -1; }
    if (s == 2 && n > 1) n /= 2;
    ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
    say("write", fd, 0, r < 0 ? 0 : r, o, r, path, 0);
    if (s == 2) half();
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite_(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite_(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    char path[PATH_MAX];
    if (!armed || !fdpath(fd, path) || !inside(path)) return syscall(SYS_writev, fd, v, c);
    long o = pos(fd, appends(fd));
    int s = step(1);
    if (s == 1) { say("write", fd, 0, 0, o, -1, path, 0); return -1; }
    ssize_t r = syscall(SYS_writev, fd, v, c);
    say("write", fd, 0, r < 0 ? 0 : r, o, r, path, 0);
    return r;
}
static ssize_t sendfile_(int out, int in, off_t *off, size_t n)
{
    char path[PATH_MAX];
    if (!armed || !fdpath(out, path) || !inside(path)) return syscall(SYS_sendfile, out, in, off, n);
    long o = pos(out, 0);
    int s = step(1);
    if (s == 1) { say("write", out, 1, 0, o, -1, path, 0); return -1; }
    if (s == 2) { long left = size_of(in) - (off ? *off : pos(in, 0)); if (left > 1) n = left / 2; }
    ssize_t r = syscall(SYS_sendfile, out, in, off, n);
    say("write", out, 1, r < 0 ? 0 : r, o, r, path, 0);
    if (s == 2) half();
    return r;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile_(out, in, off, n); }
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return sendfile_(out, in, (off_t *)off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f)
{
    char path[PATH_MAX];
    if (!armed || !fdpath(out, path) || !inside(path)) return syscall(SYS_copy_file_range, in, oi, out, oo, n, f);
    long o = oo ? *oo : pos(out, 0);
    if (step(1) == 1) { say("write", out, 1, 0, o, -1, path, 0); return -1; }
    ssize_t r = syscall(SYS_copy_file_range, in, oi, out, oo, n, f);
    say("write", out, 1, r < 0 ? 0 : r, o, r, path, 0);
    return r;
}
static int ftruncate_(int fd, off_t n)
{
    char path[PATH_MAX];
    if (!armed || !fdpath(fd, path) || !inside(path)) return syscall(SYS_ftruncate, fd, n);
    if (step(1) == 1) { say("trunc", fd, 0, n, 0, -1, path, 0); return -1; }
    int r = syscall(SYS_ftruncate, fd, n);
    say("trunc", fd, 0, n, 0, r, path, 0);
    return r;
}
int ftruncate(int fd, off_t n) { return ftruncate_(fd, n); }
int ftruncate64(int fd, off64_t n) { return ftruncate_(fd, n); }
static int truncate_(const char *p, off_t n)
{
    char path[PATH_MAX];
    if (!armed || !full(AT_FDCWD, p, 1, path) || !inside(path)) return syscall(SYS_truncate, p, n);
    if (step(1) == 1) { say("trunc", -1, 0, n, 0, -1, path, 0); return -1; }
    int r = syscall(SYS_truncate, p, n);
    say("trunc", -1, 0, n, 0, r, path, 0);
    return r;
}
int truncate(const char *p, off_t n) { return truncate_(p, n); }
int truncate64(const char *p, off64_t n) { return truncate_(p, n); }
int fsync(int fd)
{
    char path[PATH_MAX];
    if (armed && fdpath(fd, path) && inside(path) && step(1) == 1) return -1;
    return syscall(SYS_fsync, fd);
}

/* --- names --- */
static int names(const char *kind, int da, const char *a, int db, const char *b, int (*go)(int, const char *, int, const char *))
{
    char p[PATH_MAX], q[PATH_MAX];
    int ia = armed && full(da, a, 0, p) && inside(p), ib = armed && full(db, b, 0, q) && inside(q);
    if (!ia && !ib) return go(da, a, db, b);
    if (step(0) == 1) { say(kind, -1, 0, 0, 0, -1, ia ? p : "", ib ? q : ""); return -1; }
    int r = go(da, a, db, b);
    say(kind, -1, 0, 0, 0, r, ia ? p : "", ib ? q : "");
    return r;
}
static int go_rename(int da, const char *a, int db, const char *b) { return syscall(SYS_renameat, da, a, db, b); }
static int go_link(int da, const char *a, int db, const char *b) { return syscall(SYS_linkat, da, a, db, b, 0); }
int rename(const char *a, const char *b) { return names("rename", AT_FDCWD, a, AT_FDCWD, b, go_rename); }
int renameat(int da, const char *a, int db, const char *b) { return names("rename", da, a, db, b, go_rename); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { if (f) { errno = ENOSYS; return -1; } return names("rename", da, a, db, b, go_rename); }
int link(const char *a, const char *b) { return names("link", AT_FDCWD, a, AT_FDCWD, b, go_link); }
int linkat(int da, const char *a, int db, const char *b, int f) { return names("link", da, a, db, b, go_link); }
static int symlink_(const char *a, int d, const char *b)
{
    char q[PATH_MAX];
    if (!armed || !full(d, b, 0, q) || !inside(q)) return syscall(SYS_symlinkat, a, d, b);
    if (step(0) == 1) { say("symlink", -1, 0, 0, 0, -1, q, 0); return -1; }
    int r = syscall(SYS_symlinkat, a, d, b);
    say("symlink", -1, 0, 0, 0, r, q, 0);
    return r;
}
int symlink(const char *a, const char *b) { return symlink_(a, AT_FDCWD, b); }
int symlinkat(const char *a, int d, const char *b) { return symlink_(a, d, b); }
static int unlink_(int d, const char *p, int f)
{
    char path[PATH_MAX];
    if (!armed || !full(d, p, 0, path) || !inside(path)) return syscall(SYS_unlinkat, d, p, f);
    if (step(0) == 1) { say("unlink", -1, f, 0, 0, -1, path, 0); return -1; }
    int r = syscall(SYS_unlinkat, d, p, f);
    say("unlink", -1, f, 0, 0, r, path, 0);
    return r;
}
int unlink(const char *p) { return unlink_(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return unlink_(d, p, f); }
int rmdir(const char *p) { return unlink_(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) { struct stat st; return unlink_(AT_FDCWD, p, !lstat(p, &st) && S_ISDIR(st.st_mode) ? AT_REMOVEDIR : 0); }
static int mkdir_(int d, const char *p, mode_t m)
{
    char path[PATH_MAX];
    if (!armed || !full(d, p, 0, path) || !inside(path)) return syscall(SYS_mkdirat, d, p, m);
    if (step(0) == 1) { say("mkdir", -1, 0, 0, 0, -1, path, 0); return -1; }
    int r = syscall(SYS_mkdirat, d, p, m);
    say("mkdir", -1, 0, 0, 0, r, path, 0);
    return r;
}
int mkdir(const char *p, mode_t m) { return mkdir_(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return mkdir_(d, p, m); }
static int chmod_(int d, const char *p, mode_t m)
{
    char path[PATH_MAX];
    if (!armed || !full(d, p, 1, path) || !inside(path)) return syscall(SYS_fchmodat, d, p, m);
    if (step(0) == 1) { say("chmod", -1, m, 0, 0, -1, path, 0); return -1; }
    int r = syscall(SYS_fchmodat, d, p, m);
    say("chmod", -1, m, 0, 0, r, path, 0);
    return r;
}
int chmod(const char *p, mode_t m) { return chmod_(AT_FDCWD, p, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { return chmod_(d, p, m); }
int fchmod(int fd, mode_t m)
{
    char path[PATH_MAX];
    if (!armed || !fdpath(fd, path) || !inside(path)) return syscall(SYS_fchmod, fd, m);
    if (step(0) == 1) { say("chmod", fd, m, 0, 0, -1, path, 0); return -1; }
    int r = syscall(SYS_fchmod, fd, m);
    say("chmod", fd, m, 0, 0, r, path, 0);
    return r;
}
