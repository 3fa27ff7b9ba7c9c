// Injects faults into the file operations of a command line tool (LD_PRELOAD).
//   FI_ROOT=path    only files below the path are affected
//   FI_STDOUT=1     and the standard output
//   FI_SHORT=n      a read or write moves at most 1..n bytes
//   FI_EINTR=k      every k-th read or write is interrupted
//   FI_READ=n       the n-th read fails with EIO       (0: none)
//   FI_WRITE=n      the writes from the n-th on fail with ENOSPC
//   FI_OPEN=n       the n-th open fails with EACCES
//   FI_READDIR=n    the n-th readdir fails with EIO
//   FI_MKDIR=n      the n-th mkdir fails with EACCES
//   FI_LOG=path     counters and injected faults are appended there
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static long n_read, n_write, n_open, n_readdir, n_mkdir, n_short, n_eintr, n_fault, n_io, rnd;

static long opt(const char *name) {
    const char *s = getenv(name);
    return s ? atol(s) : 0;
}

static int below(const char *path) {
    const char *root = getenv("FI_ROOT");
    return root && !strncmp(path, root, strlen(root));
}

static int mine(int fd) {
    char link[64], path[4096];
    if (fd == 1 && opt("FI_STDOUT")) return 1;
    if (fd < 3) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlink, link, path, sizeof path - 1);
    if (n <= 0) return 0;
    path[n] = 0;
    return below(path);
}

static void report(void) {
    const char *path = getenv("FI_LOG");
    char line[256];
    if (!path) return;
    int fd = syscall(SYS_openat, AT_FDCWD, path, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd < 0) return;
    int n = snprintf(line, sizeof line, "read %ld write %ld open %ld readdir %ld mkdir %ld short %ld eintr %ld fault %ld\n",
                     n_read, n_write, n_open, n_readdir, n_mkdir, n_short, n_eintr, n_fault);
    syscall(SYS_write, fd, line, n);
    syscall(SYS_close, fd);
}

__attribute__((destructor)) static void finish(void) { report(); }

static size_t cut(size_t n) {
    long s = opt("FI_SHORT");
    if (!s || n <= 1) return n;
    rnd = rnd * 1103515245 + 12345;
    size_t m = 1 + (size_t)((rnd >> 16) & 0x7fff) % s;
    if (m < n) {
        n_short++;
        return m;
    }
    return n;
}

static int interrupted(void) {
    long k = opt("FI_EINTR");
    if (k && ++n_io % k == 0) {
        n_eintr++;
        errno = EINTR;
        return 1;
    }
    return 0;
}

ssize_t read(int fd, void *buf, size_t n) {
    if (!mine(fd)) return syscall(SYS_read, fd, buf, n);
    if (interrupted()) return -1;
    if (++n_read == opt("FI_READ")) {
        n_fault++;
        errno = EIO;
        return -1;
    }
    return syscall(SYS_read, fd, buf, cut(n));
}

ssize_t write(int fd, const void *buf, size_t n) {
    if (!mine(fd)) return syscall(SYS_write, fd, buf, n);
    if (interrupted()) return -1;
    long w = opt("FI_WRITE");
    if (++n_write >= w && w) {
        n_fault++;
        errno = ENOSPC;
        return -1;
    }
    return syscall(SYS_write, fd, buf, cut(n));
}

ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!mine(fd) || n == 0) return syscall(SYS_writev, fd, v, n);
    return write(fd, v[0].iov_base, v[0].iov_len);
}

static int refused(const char *path) {
    if (!below(path)) return 0;
    if (++n_open == opt("FI_OPEN")) {
        n_fault++;
        errno = EACCES;
        return 1;
    }
    return 0;
}

int open64(const char *path, int flags, ...) {
    va_list a;
    va_start(a, flags);
    int mode = va_arg(a, int);
    va_end(a);
    char full[8192];
    const char *p = path;
    if (path[0] != '/') {
        if (syscall(SYS_getcwd, full, 4096) > 0) {
            strncat(full, "/", sizeof full - strlen(full) - 1);
            strncat(full, path, sizeof full - strlen(full) - 1);
            p = full;
        }
    }
    if (refused(p)) return -1;
    return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}

int open(const char *path, int flags, ...) {
    va_list a;
    va_start(a, flags);
    int mode = va_arg(a, int);
    va_end(a);
    return open64(path, flags, mode);
}

struct dirent64 *readdir64(DIR *d) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) real = dlsym(RTLD_NEXT, "readdir64");
    if (++n_readdir == opt("FI_READDIR")) {
        n_fault++;
        errno = EIO;
        return 0;
    }
    return real(d);
}

int mkdir(const char *path, mode_t mode) {
    if (++n_mkdir == opt("FI_MKDIR")) {
        n_fault++;
        errno = EACCES;
        return -1;
    }
    return syscall(SYS_mkdirat, AT_FDCWD, path, mode);
}
