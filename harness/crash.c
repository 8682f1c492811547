/* Preloaded into the tag server.  Counts the calls that change the retention
 * files.  Ends the process at the call whose number is in the file crash.at, after
 * performing the first bytes of it (second number) if it is a write.  Keeps, next to every file,
 * what was certain to be on the disk: FILE.synced is the content at the last
 * fsync. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <unistd.h>

static long count, crash_at, torn;

static int
ours(const char *p) {
    const char *b = strrchr(p, '/');
    b = b ? b + 1 : p;
    return strncmp(b, "retentive.db", 12) == 0;
}

static int
path(int fd, char *out) {
    char l[64];
    ssize_t n;
    snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
    n = readlink(l, out, PATH_MAX - 16);
    if(n <= 0) return 0;
    out[n] = 0;
    return ours(out);
}

/* returns nonzero if this is the call to end at */
static int
tick(void) {
    FILE *f;
    crash_at = torn = 0;
    if((f = fopen("crash.at", "r"))) {
        if(fscanf(f, "%ld %ld", &crash_at, &torn) < 1) crash_at = 0;
        fclose(f);
    }
    count++;
    if((f = fopen("crash.count", "w"))) {
        fprintf(f, "%ld\n", count);
        fclose(f);
    }
    return count == crash_at;
}

static void die(void) { kill(getpid(), SIGKILL); for(;;) pause(); }

static void
copy(int fd, const char *p) {
    char q[PATH_MAX], b[65536];
    off_t o = 0;
    ssize_t n;
    int out;
    int (*ropen)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
    ssize_t (*rwrite)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    snprintf(q, sizeof(q), "%s.synced", p);
    out = ropen(q, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if(out < 0) return;
    while((n = pread(fd, b, sizeof(b), o)) > 0) { if(rwrite(out, b, n) != n) break; o += n; }
    close(out);
}

#define WRITE(name, args, call) \
    char p[PATH_MAX]; \
    static ssize_t (*real) args; \
    if(!real) real = dlsym(RTLD_NEXT, #name); \
    if(path(fd, p) && tick()) { if(torn > 0 && torn < (long)n) { n = torn; real call; } die(); } \
    return real call;

ssize_t write(int fd, const void *b, size_t n) { WRITE(write, (int, const void *, size_t), (fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { WRITE(pwrite, (int, const void *, size_t, off_t), (fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { WRITE(pwrite64, (int, const void *, size_t, off64_t), (fd, b, n, o)) }

#define OTHER(name, args, call) \
    static int (*real) args; \
    if(!real) real = dlsym(RTLD_NEXT, #name);

int ftruncate(int fd, off_t o) {
    char p[PATH_MAX];
    OTHER(ftruncate, (int, off_t), (fd, o))
    if(path(fd, p) && tick()) die();
    return real(fd, o);
}
int ftruncate64(int fd, off64_t o) {
    char p[PATH_MAX];
    OTHER(ftruncate64, (int, off64_t), (fd, o))
    if(path(fd, p) && tick()) die();
    return real(fd, o);
}
int fsync(int fd) {
    char p[PATH_MAX];
    int r, w;
    OTHER(fsync, (int), (fd))
    w = path(fd, p);
    if(w && tick()) die();
    r = real(fd);
    if(w) copy(fd, p);
    return r;
}
int fdatasync(int fd) {
    char p[PATH_MAX];
    int r, w;
    OTHER(fdatasync, (int), (fd))
    w = path(fd, p);
    if(w && tick()) die();
    r = real(fd);
    if(w) copy(fd, p);
    return r;
}
int unlink(const char *p) {
    char q[PATH_MAX];
    int r;
    OTHER(unlink, (const char *), (p))
    if(ours(p) && tick()) die();
    r = real(p);
    if(ours(p)) { snprintf(q, sizeof(q), "%s.synced", p); real(q); }
    return r;
}
