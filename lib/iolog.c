/* Records what a process writes below one directory, to rebuild the files as
 * they would be after a crash at any point. Loaded with LD_PRELOAD. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
static char *paths[MAXFD];
static char prefix[4096];
static size_t plen;
static int on;
static char *buf;
static size_t len, cap;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

static void put(const void *p, size_t n) {
    if (len + n > cap) {
        cap = (len + n) * 2 + 65536;
        buf = realloc(buf, cap);
        if (!buf) abort();
    }
    memcpy(buf + len, p, n);
    len += n;
}

static void record(char type, const char *path, int64_t off, const void *data, uint32_t n) {
    if (!on) return;
    uint32_t pl = path ? strlen(path) : 0;
    pthread_mutex_lock(&mu);
    put(&type, 1); put(&pl, 4); put(path ? path : "", pl); put(&off, 8); put(&n, 4); if (data) put(data, n);
    pthread_mutex_unlock(&mu);
}

static int ours(const char *p) { return plen && p && strncmp(p, prefix, plen) == 0; }
static const char *fdpath(int fd) { return fd >= 0 && fd < MAXFD ? paths[fd] : NULL; }

void iolog_watch(const char *p) { strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); on = 0; }
void iolog_start(void) { len = 0; on = 1; }
void iolog_stop(void) { on = 0; }
void iolog_mark(int64_t n) { if (on) record('M', NULL, n, NULL, 0); }
void *iolog_data(void) { return buf; }
size_t iolog_len(void) { return len; }

static void opened(int fd, const char *path, int flags, int existed) {
    if (fd < 0 || fd >= MAXFD) return;
    free(paths[fd]);
    paths[fd] = NULL;
    if (ours(path)) {
        paths[fd] = strdup(path);
        if ((flags & O_CREAT) && !existed) record('C', path, 0, NULL, 0);
        if (flags & O_TRUNC) record('T', path, 0, NULL, 0);
    }
}

#define OPEN(name) \
int name(const char *path, int flags, ...) { \
    REAL(name); \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    int existed = ours(path) ? access(path, F_OK) == 0 : 1; \
    int fd = real(path, flags, mode); \
    int e = errno; opened(fd, path, flags, existed); errno = e; \
    return fd; \
}
OPEN(open)
OPEN(open64)

int close(int fd) {
    REAL(close);
    if (fd >= 0 && fd < MAXFD && paths[fd]) { free(paths[fd]); paths[fd] = NULL; }
    return real(fd);
}

#define PWRITE(name, off_type) \
ssize_t name(int fd, const void *p, size_t n, off_type off) { \
    REAL(name); \
    ssize_t r = real(fd, p, n, off); \
    if (r > 0 && fdpath(fd)) record('W', fdpath(fd), off, p, r); \
    return r; \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

ssize_t write(int fd, const void *p, size_t n) {
    REAL(write);
    const char *path = fdpath(fd);
    off_t off = path ? lseek(fd, 0, SEEK_CUR) : 0;
    ssize_t r = real(fd, p, n);
    if (r > 0 && path) record('W', path, off, p, r);
    return r;
}

#define TRUNC(name, off_type) \
int name(int fd, off_type n) { \
    REAL(name); \
    int r = real(fd, n); \
    if (r == 0 && fdpath(fd)) record('T', fdpath(fd), n, NULL, 0); \
    return r; \
}
TRUNC(ftruncate, off_t)
TRUNC(ftruncate64, off64_t)

#define SYNC(name) \
int name(int fd) { \
    REAL(name); \
    int r = real(fd); \
    if (r == 0 && fdpath(fd)) record('S', fdpath(fd), 0, NULL, 0); \
    return r; \
}
SYNC(fsync)
SYNC(fdatasync)

int unlink(const char *path) {
    REAL(unlink);
    int r = real(path);
    if (r == 0 && ours(path)) record('U', path, 0, NULL, 0);
    return r;
}
