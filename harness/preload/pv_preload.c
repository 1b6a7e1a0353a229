/* Preloaded into nginx by some checks: small socket buffers, so that writes
 * are partial. PV_SNDBUF=n applies to accepted sockets.  PV_SWAP=file: when a
 * process gets at that file and finds file.<call>.<inode> (call: fstat, read),
 * the contents of the latter become its contents just before the call, unless
 * there is file.hold.<pid>. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

static int n;
static char *swapped;

/* nginx clears the environment of its workers */
__attribute__((constructor)) static void init(void)
{
    char *v = getenv("PV_SNDBUF");
    n = v ? atoi(v) : 0;
    v = getenv("PV_SWAP");
    swapped = v ? strdup(v) : NULL;
}

static void tune(int fd)
{
    if (fd >= 0 && n > 0) {
        setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof(n));
    }
}

int accept4(int s, struct sockaddr *a, socklen_t *l, int flags)
{
    static int (*real)(int, struct sockaddr *, socklen_t *, int);
    int fd;
    if (!real) real = dlsym(RTLD_NEXT, "accept4");
    fd = real(s, a, l, flags);
    tune(fd);
    return fd;
}

int accept(int s, struct sockaddr *a, socklen_t *l)
{
    static int (*real)(int, struct sockaddr *, socklen_t *);
    int fd;
    if (!real) real = dlsym(RTLD_NEXT, "accept");
    fd = real(s, a, l);
    tune(fd);
    return fd;
}

static void swap(int fd, const char *call)
{
    static __thread int busy;
    char link[64], name[1024], buf[65536];
    ssize_t k, (*rd)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
    int in, out, lock;
    char locked[1100];
    struct stat st;

    if (!swapped || busy) return;
    busy = 1;
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    k = readlink(link, name, sizeof(name) - 1);
    if (k > 0) {
        name[k] = 0;
        if (strcmp(name, swapped) == 0) {
            snprintf(locked, sizeof(locked), "%s.lock", swapped);
            snprintf(name, sizeof(name), "%s.hold.%d", swapped, (int) getpid());
            in = -1;
            lock = open(locked, O_RDWR | O_CREAT, 0666);
            if (lock >= 0) flock(lock, LOCK_EX);
            if (access(name, F_OK) != 0 && stat(swapped, &st) == 0) {
                snprintf(name, sizeof(name), "%s.%s.%lu", swapped, call, (unsigned long) st.st_ino);
                in = open(name, O_RDONLY);
            }
            if (in >= 0) {
                k = rd(in, buf, sizeof(buf));
                close(in);
                out = open(swapped, O_WRONLY);
                if (k >= 0 && out >= 0 && pwrite(out, buf, k, 0) == k && ftruncate(out, k) == 0) unlink(name);
                if (out >= 0) close(out);
            }
            if (lock >= 0) close(lock);
        }
    }
    busy = 0;
}

int fstat(int fd, struct stat *st)
{
    static int (*real)(int, struct stat *);
    if (!real) real = dlsym(RTLD_NEXT, "fstat");
    swap(fd, "fstat");
    return real(fd, st);
}

int fstat64(int fd, struct stat64 *st)
{
    static int (*real)(int, struct stat64 *);
    if (!real) real = dlsym(RTLD_NEXT, "fstat64");
    swap(fd, "fstat");
    return real(fd, st);
}

ssize_t read(int fd, void *b, size_t k)
{
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    swap(fd, "read");
    return real(fd, b, k);
}
