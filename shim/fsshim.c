/*
 * Interposes the file system calls of a process (LD_PRELOAD). Calls which touch
 * a path below one of the armed prefixes are numbered, logged, and one of them
 * can be turned into a fault: the process is killed before, in the middle of or
 * after it, or it fails with a given errno.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXLOG (1 << 20)

enum { OFF = 0, RECORD, KILL_BEFORE, KILL_AFTER, TORN, FAIL, FAIL_FROM, FAIL_SAME };

static int mode = OFF;
static long target = -1;
static long torn_len = -1; /* bytes written before the kill */
static int fail_errno = 0;
static char fail_name[32];
static long counter = 0;
static char prefixes[4][PATH_MAX];
static int num_prefixes = 0;
static char tracked[MAXFD];
static char logbuf[MAXLOG];
static size_t loglen = 0;

static void *real(const char *name) {
    void *res = dlsym(RTLD_NEXT, name);
    if (!res) abort();
    return res;
}
#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = NULL; \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))real(#name)

void fsshim_arm(int new_mode, long new_target, long new_torn, int new_errno) {
    mode = new_mode; target = new_target; torn_len = new_torn; fail_errno = new_errno;
    counter = 0; loglen = 0; logbuf[0] = 0;
    memset(tracked, 0, sizeof tracked);
}
void fsshim_prefix(const char *path) {
    if (num_prefixes < 4) { strncpy(prefixes[num_prefixes], path, PATH_MAX - 1); num_prefixes++; }
}
void fsshim_disarm(void) { mode = OFF; }
long fsshim_count(void) { return counter; }
const char *fsshim_log(void) { return logbuf; }

static int matches(const char *path) {
    char buf[PATH_MAX * 2];
    if (mode == OFF || !path) return 0;
    if (path[0] != '/') {
        char cwd[PATH_MAX];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
        snprintf(buf, sizeof buf, "%s/%s", cwd, path);
        path = buf;
    }
    for (int i = 0; i < num_prefixes; i++)
        if (!strncmp(path, prefixes[i], strlen(prefixes[i]))) return 1;
    return 0;
}
static int fdmatches(int fd) { return mode != OFF && fd >= 0 && fd < MAXFD && tracked[fd]; }
static void track(int fd) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 1; }

static void die(void) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) syscall(SYS_exit_group, 137);
}
static void record(const char *name, const char *arg, long size) {
    if (loglen < MAXLOG - 2 * PATH_MAX)
        loglen += snprintf(logbuf + loglen, MAXLOG - loglen, "%s\t%s\t%ld\n", name, arg ? arg : "", size);
}
/* Begin a numbered call. Returns 1 if it has to fail, 2 if it has to be torn. */
static int begin(const char *name, const char *arg, long size) {
    long idx = counter++;
    record(name, arg, size);
    if (mode == KILL_BEFORE && idx == target) die();
    if (mode == TORN && idx == target) return 2;
    if (mode == FAIL && idx == target) { errno = fail_errno; return 1; }
    /* everything which needs space fails from now on */
    if (mode == FAIL_FROM && idx >= target && size >= 0) { errno = fail_errno; return 1; }
    /* all calls of one kind fail from now on */
    if (mode == FAIL_SAME && idx == target) snprintf(fail_name, sizeof fail_name, "%s", name);
    if (mode == FAIL_SAME && idx >= target && !strcmp(name, fail_name)) { errno = fail_errno; return 1; }
    return 0;
}
static void end(void) {
    if (mode == KILL_AFTER && counter - 1 == target) { die(); }
}

static int open_common(const char *name, int (*call)(const char *, int, mode_t), const char *path, int flags, mode_t perm) {
    if ((flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && matches(path)) {
        if (begin(name, path, (flags & O_CREAT) ? 0 : -1)) return -1;
        int fd = call(path, flags, perm);
        int saved = errno;
        track(fd);
        end();
        errno = saved;
        return fd;
    }
    return call(path, flags, perm);
}
#define PERM mode_t perm = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); perm = va_arg(ap, int); va_end(ap); }

int open(const char *path, int flags, ...) {
    PERM
    REAL(int, open, const char *, int, mode_t);
    return open_common("open", real_open, path, flags, perm);
}
int open64(const char *path, int flags, ...) {
    PERM
    REAL(int, open64, const char *, int, mode_t);
    return open_common("open", real_open64, path, flags, perm);
}
int creat(const char *path, mode_t perm) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, perm); }
int creat64(const char *path, mode_t perm) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, perm); }
int openat(int dirfd, const char *path, int flags, ...) {
    PERM
    REAL(int, openat, int, const char *, int, mode_t);
    if ((flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && matches(path)) {
        if (begin("open", path, (flags & O_CREAT) ? 0 : -1)) return -1;
        int fd = real_openat(dirfd, path, flags, perm), saved = errno;
        track(fd); end(); errno = saved;
        return fd;
    }
    return real_openat(dirfd, path, flags, perm);
}
int openat64(int dirfd, const char *path, int flags, ...) { PERM return openat(dirfd, path, flags, perm); }
int close(int fd) {
    REAL(int, close, int);
    if (fdmatches(fd)) {
        int what = begin("close", "", -1);
        tracked[fd] = 0;
        int res = real_close(fd), saved = errno;
        if (what == 1) { errno = fail_errno; return -1; }
        end(); errno = saved;
        return res;
    }
    return real_close(fd);
}
int dup(int fd) {
    REAL(int, dup, int);
    int res = real_dup(fd);
    if (fdmatches(fd)) track(res);
    return res;
}
int dup2(int fd, int fd2) {
    REAL(int, dup2, int, int);
    int res = real_dup2(fd, fd2);
    if (res >= 0 && res < MAXFD) tracked[res] = fdmatches(fd);
    return res;
}

#define WRITER(name, SIZE, PARTIAL, ARGS, CALL) \
    if (fdmatches(fd)) { \
        int what = begin(#name, "", (long)(SIZE)); \
        if (what == 1) return -1; \
        if (what == 2) { size_t part = torn_len < 0 ? 0 : (size_t)torn_len; if (part >= (size_t)(SIZE)) part = (SIZE) ? (SIZE) - 1 : 0; \
            if (part) { PARTIAL; } die(); } \
        ssize_t res = CALL; int saved = errno; end(); errno = saved; return res; \
    } \
    return CALL;

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    WRITER(write, n, real_write(fd, buf, part), , real_write(fd, buf, n))
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
    WRITER(pwrite, n, real_pwrite(fd, buf, part, off), , real_pwrite(fd, buf, n, off))
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    WRITER(pwrite, n, real_pwrite64(fd, buf, part, off), , real_pwrite64(fd, buf, n, off))
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    size_t n = 0;
    for (int i = 0; i < cnt; i++) n += iov[i].iov_len;
    WRITER(writev, n, if (real_writev(fd, iov, 1) < 0) die(), , real_writev(fd, iov, cnt))
}
ssize_t sendfile(int fd, int in, off_t *off, size_t n) {
    REAL(ssize_t, sendfile, int, int, off_t *, size_t);
    WRITER(sendfile, 2, real_sendfile(fd, in, off, 100), , real_sendfile(fd, in, off, n))
}
ssize_t sendfile64(int fd, int in, off64_t *off, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
    WRITER(sendfile, 2, real_sendfile64(fd, in, off, 100), , real_sendfile64(fd, in, off, n))
}
ssize_t copy_file_range(int in, off64_t *off_in, int fd, off64_t *off, size_t n, unsigned flags) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    WRITER(copy_file_range, 2, real_copy_file_range(in, off_in, fd, off, 100, flags), , real_copy_file_range(in, off_in, fd, off, n, flags))
}

#define SIMPLE(name, COND, ARG, SIZE, CALL) \
    if (COND) { \
        int what = begin(#name, ARG, SIZE); \
        if (what == 1) return -1; \
        if (what == 2) die(); \
        int res = CALL; int saved = errno; end(); errno = saved; return res; \
    } \
    return CALL;

int ftruncate(int fd, off_t len) {
    REAL(int, ftruncate, int, off_t);
    SIMPLE(ftruncate, fdmatches(fd), "", 0, real_ftruncate(fd, len))
}
int ftruncate64(int fd, off64_t len) {
    REAL(int, ftruncate64, int, off64_t);
    SIMPLE(ftruncate, fdmatches(fd), "", 0, real_ftruncate64(fd, len))
}
int truncate(const char *path, off_t len) {
    REAL(int, truncate, const char *, off_t);
    SIMPLE(truncate, matches(path), path, 0, real_truncate(path, len))
}
int fallocate(int fd, int md, off_t off, off_t len) {
    REAL(int, fallocate, int, int, off_t, off_t);
    SIMPLE(fallocate, fdmatches(fd), "", 0, real_fallocate(fd, md, off, len))
}
int fsync(int fd) {
    REAL(int, fsync, int);
    SIMPLE(fsync, fdmatches(fd), "", -1, real_fsync(fd))
}
int fdatasync(int fd) {
    REAL(int, fdatasync, int);
    SIMPLE(fdatasync, fdmatches(fd), "", -1, real_fdatasync(fd))
}
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    SIMPLE(rename, matches(a) || matches(b), b, 0, real_rename(a, b))
}
int renameat(int da, const char *a, int db, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    SIMPLE(rename, matches(a) || matches(b), b, 0, real_renameat(da, a, db, b))
}
int renameat2(int da, const char *a, int db, const char *b, unsigned flags) {
    REAL(int, renameat2, int, const char *, int, const char *, unsigned);
    SIMPLE(rename, matches(a) || matches(b), b, 0, real_renameat2(da, a, db, b, flags))
}
int link(const char *a, const char *b) {
    REAL(int, link, const char *, const char *);
    SIMPLE(link, matches(a) || matches(b), b, 0, real_link(a, b))
}
int linkat(int da, const char *a, int db, const char *b, int flags) {
    REAL(int, linkat, int, const char *, int, const char *, int);
    SIMPLE(link, matches(a) || matches(b), b, 0, real_linkat(da, a, db, b, flags))
}
int symlink(const char *a, const char *b) {
    REAL(int, symlink, const char *, const char *);
    SIMPLE(symlink, matches(b), b, 0, real_symlink(a, b))
}
int unlink(const char *path) {
    REAL(int, unlink, const char *);
    SIMPLE(unlink, matches(path), path, -1, real_unlink(path))
}
int unlinkat(int fd, const char *path, int flags) {
    REAL(int, unlinkat, int, const char *, int);
    SIMPLE(unlink, matches(path), path, -1, real_unlinkat(fd, path, flags))
}
int remove(const char *path) {
    REAL(int, remove, const char *);
    SIMPLE(unlink, matches(path), path, -1, real_remove(path))
}
int mkdir(const char *path, mode_t perm) {
    REAL(int, mkdir, const char *, mode_t);
    SIMPLE(mkdir, matches(path), path, 0, real_mkdir(path, perm))
}
int rmdir(const char *path) {
    REAL(int, rmdir, const char *);
    SIMPLE(rmdir, matches(path), path, -1, real_rmdir(path))
}
int chmod(const char *path, mode_t perm) {
    REAL(int, chmod, const char *, mode_t);
    SIMPLE(chmod, matches(path), path, -1, real_chmod(path, perm))
}
