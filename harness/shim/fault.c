/* LD_PRELOAD: numbers the calls that change files or write output, and makes one of them fail.
   FAULT_FILES=1: only writes to files count, not those to pipes.
   FAULT_AT=n FAULT_MODE=enospc|eio|short|kill|partkill   FAULT_COUNT=path: write how many calls there were. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static long at = -1, n, hit;
static const char *mode, *count;
static void done(void) {
    if (!count) return;
    ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
    int fd = o(count, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) return;
    char b[64];
    int k = snprintf(b, sizeof b, "%ld %ld\n", n, hit);
    w(fd, b, k);
    close(fd);
}
__attribute__((constructor)) static void init(void) {
    const char *a = getenv("FAULT_AT");
    mode = getenv("FAULT_MODE");
    count = getenv("FAULT_COUNT");
    if (a) at = atol(a);
    if (!mode) mode = "enospc";
    atexit(done);
}
static int counts(int fd) {
    struct stat s;
    return fd != 2 && !(getenv("FAULT_FILES") && !(fstat(fd, &s) == 0 && S_ISREG(s.st_mode)));
}
/* 0: go on; 1: fail with errno set; 2: only a part */
static int step(int part) {
    if (!strcmp(mode, "full")) {  /* from there on nothing fits any more */
        if (n++ < at || at < 0 || !part) return 0;
        hit = 1;
        errno = ENOSPC;
        return 1;
    }
    if (n++ != at) return 0;
    hit = 1;
    if (!strcmp(mode, "kill")) { done(); _exit(99); }
    if (!strcmp(mode, "partkill")) { if (part) return 2; done(); _exit(99); }
    if (!strcmp(mode, "short")) return part ? 2 : 0;
    errno = !strcmp(mode, "eio") ? EIO : ENOSPC;
    return 1;
}
#define REAL(ret, name, args) static ret (*real) args; if (!real) real = dlsym(RTLD_NEXT, name)
static int opening(const char *sym, int dir, const char *p, int flags, mode_t m) {
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (w && strncmp(p, "/dev/", 5) && strncmp(p, "/proc/", 6) && step(!strcmp(mode, "full") && (flags & O_CREAT) && access(p, F_OK))) return -1;
    if (dir == -12345) {
        int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, sym);
        return o(p, flags, m);
    }
    int (*o)(int, const char *, int, ...) = dlsym(RTLD_NEXT, sym);
    return o(dir, p, flags, m);
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); m = va_arg(v, int); va_end(v); }
int open(const char *p, int flags, ...) { MODE return opening("open", -12345, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return opening("open64", -12345, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE return opening("openat", d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return opening("openat64", d, p, flags, m); }
ssize_t write(int fd, const void *b, size_t c) {
    REAL(ssize_t, "write", (int, const void *, size_t));
    if (counts(fd)) switch (step(1)) {
        case 1: return -1;
        case 2: {
            ssize_t r = real(fd, b, c / 2);
            if (!strcmp(mode, "partkill")) { done(); _exit(99); }
            return r;
        }
    }
    return real(fd, b, c);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    REAL(ssize_t, "writev", (int, const struct iovec *, int));
    if (counts(fd) && step(0)) return -1;
    return real(fd, v, k);
}
ssize_t pwrite64(int fd, const void *b, size_t c, off64_t o) {
    REAL(ssize_t, "pwrite64", (int, const void *, size_t, off64_t));
    if (step(0)) return -1;
    return real(fd, b, c, o);
}
int rename(const char *a, const char *b) { REAL(int, "rename", (const char *, const char *)); if (step(0)) return -1; return real(a, b); }
int renameat(int c, const char *a, int d, const char *b) { REAL(int, "renameat", (int, const char *, int, const char *)); if (step(0)) return -1; return real(c, a, d, b); }
int linkat(int c, const char *a, int d, const char *b, int f) { REAL(int, "linkat", (int, const char *, int, const char *, int)); if (step(0)) return -1; return real(c, a, d, b, f); }
int fsync(int fd) { REAL(int, "fsync", (int)); if (step(0)) return -1; return real(fd); }
int fdatasync(int fd) { REAL(int, "fdatasync", (int)); if (step(0)) return -1; return real(fd); }
int ftruncate64(int fd, off64_t l) { REAL(int, "ftruncate64", (int, off64_t)); if (step(0)) return -1; return real(fd, l); }
int fchmod(int fd, mode_t m) { REAL(int, "fchmod", (int, mode_t)); if (step(0)) return -1; return real(fd, m); }
int chmod(const char *p, mode_t m) { REAL(int, "chmod", (const char *, mode_t)); if (step(0)) return -1; return real(p, m); }
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t l, unsigned f) { REAL(ssize_t, "copy_file_range", (int, off64_t *, int, off64_t *, size_t, unsigned)); if (step(0)) return -1; return real(a, x, b, y, l, f); }
ssize_t sendfile64(int a, int b, off64_t *o, size_t l) { REAL(ssize_t, "sendfile64", (int, int, off64_t *, size_t)); if (step(0)) return -1; return real(a, b, o, l); }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", (const char *, mode_t)); if (step(0)) return -1; return real(p, m); }
