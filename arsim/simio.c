/*
 * simio - the simulated disk's fault seam.
 *
 * Loaded with LD_PRELOAD into the simulated process.  Every libc call through
 * which CPython (open/read/write/close/rename/...) and lxml's bundled libxml2
 * (open/read/fopen/fread/stat) reach a file below the simulation root is one
 * numbered event.  A plan, set before each operation by the simulator, says
 * which event gets which fault; there is no randomness and no clock in here.
 * Paths outside the root, and descriptors not opened below it, pass through.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>
#include <stdint.h>
#include <sys/random.h>
#include <sys/time.h>
#include <time.h>

enum { K_OPEN, K_READ, K_WRITE, K_CLOSE, K_RENAME, K_UNLINK, K_MKDIR, K_FSYNC, K_TRUNC, K_STAT, K_N };
enum { A_NONE, A_ERRNO, A_SHORT, A_CRASH, A_TORN, A_EOF };

#define MAXFD 4096
#define MAXPLAN 64
#define MAXLOG 65536

struct fault { int kind; long nth; int action; long arg; int fired; };

static char root[PATH_MAX];
static size_t root_len;
static int active;
static unsigned char tracked[MAXFD];   /* 1: below the root */
static int gen_of[MAXFD];              /* crash generation the fd belongs to */
static char fdwr[MAXFD];
static short fdtag[MAXFD];
static int generation;
static int crashed;
static long counts[K_N];
static struct fault plan[MAXPLAN];
static int nplan;
static long quota = -1;                /* bytes of free space, -1: unlimited */
static long quota_hits;
static long max_read, max_write;       /* >0: every transfer is at most this long (swarm knob) */
static long shorts;
struct ev { unsigned char kind, action; short tag; int fd; long n; long res; };
static struct ev *elog;
static long nlog;
static long late_writes;               /* writes through fds opened before the current "op" */
static int op_no;
static int fd_op[MAXFD];
static char tags[256][256];
static int ntags;

static int (*r_open)(const char *, int, ...), (*r_open64)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...), (*r_openat64)(int, const char *, int, ...);
static ssize_t (*r_read)(int, void *, size_t), (*r_pread)(int, void *, size_t, off_t), (*r_pread64)(int, void *, size_t, off64_t);
static ssize_t (*r_write)(int, const void *, size_t), (*r_pwrite)(int, const void *, size_t, off_t), (*r_pwrite64)(int, const void *, size_t, off64_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static int (*r_close)(int);
static FILE *(*r_fopen)(const char *, const char *), *(*r_fopen64)(const char *, const char *);
static int (*r_rename)(const char *, const char *), (*r_renameat)(int, const char *, int, const char *);
static int (*r_unlink)(const char *), (*r_unlinkat)(int, const char *, int), (*r_rmdir)(const char *);
static int (*r_mkdir)(const char *, mode_t), (*r_mkdirat)(int, const char *, mode_t);
static int (*r_fsync)(int), (*r_fdatasync)(int);
static int (*r_ftruncate)(int, off_t), (*r_ftruncate64)(int, off64_t), (*r_truncate)(const char *, off_t);
static int (*r_dup)(int), (*r_dup2)(int, int), (*r_dup3)(int, int, int);

__attribute__((constructor)) static void init(void)
{
#define R(f) r_##f = dlsym(RTLD_NEXT, #f)
    R(open); R(open64); R(openat); R(openat64); R(read); R(pread); R(pread64); R(write); R(pwrite); R(pwrite64);
    R(writev); R(close); R(fopen); R(fopen64); R(rename); R(renameat); R(unlink); R(unlinkat); R(rmdir);
    R(mkdir); R(mkdirat); R(fsync); R(fdatasync); R(ftruncate); R(ftruncate64); R(truncate);
    R(dup); R(dup2); R(dup3);
}

/* ------------------------------------------------------------ control API */

void simio_root(const char *p)
{
    strncpy(root, p, sizeof root - 1);
    root_len = strlen(root);
}
void simio_reset(void)
{
    if (!elog) elog = calloc(MAXLOG, sizeof *elog);
    memset(counts, 0, sizeof counts);
    nplan = 0; nlog = 0; crashed = 0; quota = -1; quota_hits = 0; max_read = max_write = 0; shorts = 0;
    late_writes = 0; op_no = 0; ntags = 0; active = 1;
    /* descriptors opened before the reset belong to a dead process from now on */
    generation++;
}
void simio_begin_op(void) { memset(counts, 0, sizeof counts); nplan = 0; op_no++; }
void simio_off(void) { active = 0; }
void simio_on(void) { active = 1; }
int simio_add(int kind, long nth, int action, long arg)
{
    if (nplan >= MAXPLAN) return -1;
    plan[nplan].kind = kind; plan[nplan].nth = nth; plan[nplan].action = action;
    plan[nplan].arg = arg; plan[nplan].fired = 0;
    return nplan++;
}
int simio_fired(int i) { return plan[i].fired; }
void simio_clear(void) { nplan = 0; }
void simio_quota(long q) { quota = q; }
long simio_quota_hits(void) { return quota_hits; }
void simio_chunks(long r, long w) { max_read = r; max_write = w; }
long simio_shorts(void) { return shorts; }
int simio_crashed(void) { return crashed; }
/* the crashed process is gone: its descriptors stay black holes, new ones work */
void simio_restart(void) { crashed = 0; generation++; nplan = 0; quota = -1; }
long simio_count(int kind) { return counts[kind]; }
long simio_nlog(void) { return nlog; }
long simio_late_writes(void) { return late_writes; }
int simio_open_fds(void)
{
    int n = 0;
    for (int i = 0; i < MAXFD; i++) n += tracked[i] && gen_of[i] == generation;
    return n;
}
const char *simio_tag(int i) { return i >= 0 && i < ntags ? tags[i] : ""; }
int simio_ev(long i, long *out)
{
    if (i < 0 || i >= nlog || i >= MAXLOG) return -1;
    out[0] = elog[i].kind; out[1] = elog[i].action; out[2] = elog[i].tag; out[3] = elog[i].n; out[4] = elog[i].res;
    return 0;
}

/* ------------------------------------------------------------ helpers */

static const char *under(int dirfd, const char *p)
{
    static __thread char buf[PATH_MAX * 2];
    if (!active || !root_len || !p) return NULL;
    if (p[0] != '/') {
        if (dirfd != AT_FDCWD) {
            char link[64]; ssize_t k;
            snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            k = readlink(link, buf, PATH_MAX - 1);
            if (k <= 0) return NULL;
            buf[k] = 0;
        } else if (!getcwd(buf, PATH_MAX)) return NULL;
        size_t l = strlen(buf);
        snprintf(buf + l, PATH_MAX, "/%s", p);
        p = buf;
    }
    if (strncmp(p, root, root_len) == 0 && (p[root_len] == '/' || p[root_len] == 0))
        return p[root_len] ? p + root_len + 1 : p + root_len;
    return NULL;
}
static int tag_of(const char *rel)
{
    for (int i = 0; i < ntags; i++) if (!strcmp(tags[i], rel)) return i;
    if (ntags < 256) { strncpy(tags[ntags], rel, 255); tags[ntags][255] = 0; return ntags++; }
    return 255;
}
static void note(int kind, int action, int tag, int fd, long n, long res)
{
    if (elog && nlog < MAXLOG) {
        struct ev *e = &elog[nlog];
        e->kind = kind; e->action = action; e->tag = tag; e->fd = fd; e->n = n; e->res = res;
    }
    nlog++;
}
static struct fault *hit(int kind)
{
    long n = counts[kind]++;
    for (int i = 0; i < nplan; i++)
        if (plan[i].kind == kind && plan[i].nth == n && !plan[i].fired) { plan[i].fired = 1; return &plan[i]; }
    return NULL;
}
static int dead(int fd) { return gen_of[fd] != generation; }
static int is_tracked(int fd) { return fd >= 0 && fd < MAXFD && tracked[fd]; }

/* ------------------------------------------------------------ open */

static int do_open(int which, int dirfd, const char *path, int flags, mode_t mode)
{
    const char *rel = under(dirfd, path);
    int fd;
    if (rel) {
        char relbuf[256];
        strncpy(relbuf, rel, 255); relbuf[255] = 0;
        int tag = tag_of(relbuf);
        if (crashed) { errno = EIO; return -1; }
        struct fault *f = hit(K_OPEN);
        if (f && f->action == A_ERRNO) { note(K_OPEN, A_ERRNO, tag, -1, flags, -f->arg); errno = f->arg; return -1; }
        if (f && f->action == A_CRASH) { note(K_OPEN, A_CRASH, tag, -1, flags, 0); crashed = 1; errno = EIO; return -1; }
        fd = which >= 2 ? r_openat64(dirfd, path, flags, mode) : r_open64(path, flags, mode);
        note(K_OPEN, 0, tag, fd, flags & (O_ACCMODE | O_TRUNC | O_APPEND | O_CREAT | O_EXCL), fd < 0 ? -errno : 0);
        if (fd >= 0 && fd < MAXFD) {
            tracked[fd] = 1; gen_of[fd] = generation; fdtag[fd] = tag; fd_op[fd] = op_no;
            fdwr[fd] = (flags & O_ACCMODE) != O_RDONLY;
        }
        return fd;
    }
    switch (which) {
    case 0: fd = r_open(path, flags, mode); break;
    case 1: fd = r_open64(path, flags, mode); break;
    case 2: fd = r_openat(dirfd, path, flags, mode); break;
    default: fd = r_openat64(dirfd, path, flags, mode); break;
    }
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(0, AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(1, AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(2, d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(3, d, path, flags, mode); }
int creat(const char *path, mode_t mode) { return do_open(0, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(0, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

/* stdio streams below the root are served by fdopen on a tracked fd; the
 * stream's own reads bypass us (libc-internal), so only open is an event. */
static FILE *do_fopen(int is64, const char *path, const char *m)
{
    const char *rel = under(AT_FDCWD, path);
    if (rel) {
        char relbuf[256];
        strncpy(relbuf, rel, 255); relbuf[255] = 0;
        int tag = tag_of(relbuf);
        if (crashed) { errno = EIO; return NULL; }
        struct fault *f = hit(K_OPEN);
        if (f && f->action == A_ERRNO) { note(K_OPEN, A_ERRNO, tag, -1, -1, -f->arg); errno = f->arg; return NULL; }
        if (f && f->action == A_CRASH) { note(K_OPEN, A_CRASH, tag, -1, -1, 0); crashed = 1; errno = EIO; return NULL; }
        note(K_OPEN, 0, tag, -1, -1, 0);
    }
    return is64 ? r_fopen64(path, m) : r_fopen(path, m);
}
FILE *fopen(const char *path, const char *m) { return do_fopen(0, path, m); }
FILE *fopen64(const char *path, const char *m) { return do_fopen(1, path, m); }

/* ------------------------------------------------------------ read */

/* returns 1 when the call was answered here, else *n may have been shortened */
static int pre_read(int fd, size_t *n, ssize_t *ans)
{
    if (crashed || dead(fd)) { errno = EIO; *ans = -1; return 1; }
    struct fault *f = hit(K_READ);
    if (f) {
        switch (f->action) {
        case A_ERRNO: note(K_READ, A_ERRNO, fdtag[fd], fd, *n, -f->arg); errno = f->arg; *ans = -1; return 1;
        case A_CRASH: note(K_READ, A_CRASH, fdtag[fd], fd, *n, 0); crashed = 1; errno = EIO; *ans = -1; return 1;
        case A_EOF: note(K_READ, A_EOF, fdtag[fd], fd, *n, 0); *ans = 0; return 1;
        case A_SHORT: if (f->arg > 0 && (size_t)f->arg < *n) { *n = f->arg; shorts++; } break;
        }
    }
    if (max_read > 0 && *n > (size_t)max_read) { *n = max_read; shorts++; }
    return 0;
}
ssize_t read(int fd, void *b, size_t n)
{
    ssize_t a;
    if (is_tracked(fd)) {
        if (pre_read(fd, &n, &a)) return a;
        a = r_read(fd, b, n);
        note(K_READ, 0, fdtag[fd], fd, n, a);
        return a;
    }
    return r_read(fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o)
{
    ssize_t a;
    if (is_tracked(fd)) { if (pre_read(fd, &n, &a)) return a; a = r_pread(fd, b, n, o); note(K_READ, 0, fdtag[fd], fd, n, a); return a; }
    return r_pread(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{
    ssize_t a;
    if (is_tracked(fd)) { if (pre_read(fd, &n, &a)) return a; a = r_pread64(fd, b, n, o); note(K_READ, 0, fdtag[fd], fd, n, a); return a; }
    return r_pread64(fd, b, n, o);
}

/* ------------------------------------------------------------ write */

static int pre_write(int fd, size_t *n, ssize_t *ans, int *torn)
{
    *torn = 0;
    if (crashed || dead(fd)) { *ans = *n; return 1; }      /* black hole */
    if (fd_op[fd] != op_no) late_writes++;
    struct fault *f = hit(K_WRITE);
    if (f) {
        switch (f->action) {
        case A_ERRNO: note(K_WRITE, A_ERRNO, fdtag[fd], fd, *n, -f->arg); errno = f->arg; *ans = -1; return 1;
        case A_CRASH: note(K_WRITE, A_CRASH, fdtag[fd], fd, *n, 0); crashed = 1; errno = EIO; *ans = -1; return 1;
        case A_TORN: *n = (size_t)f->arg < *n ? (size_t)f->arg : *n; *torn = 1; break;
        case A_SHORT: if (f->arg > 0 && (size_t)f->arg < *n) { *n = f->arg; shorts++; } break;
        }
    }
    if (max_write > 0 && *n > (size_t)max_write) { *n = max_write; shorts++; }
    if (quota >= 0) {
        if (quota == 0 && *n > 0) { quota_hits++; note(K_WRITE, A_ERRNO, fdtag[fd], fd, *n, -ENOSPC); errno = ENOSPC; *ans = -1; return 1; }
        if (*n > (size_t)quota) *n = quota;
    }
    return 0;
}
static ssize_t post_write(int fd, size_t n, ssize_t a, int torn)
{
    note(K_WRITE, torn ? A_TORN : 0, fdtag[fd], fd, n, a);
    if (a > 0 && quota >= 0) quota -= a;
    if (torn) { crashed = 1; errno = EIO; return -1; }
    return a;
}
ssize_t write(int fd, const void *b, size_t n)
{
    ssize_t a; int torn;
    if (is_tracked(fd)) {
        if (pre_write(fd, &n, &a, &torn)) return a;
        return post_write(fd, n, r_write(fd, b, n), torn);
    }
    return r_write(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    ssize_t a; int torn;
    if (is_tracked(fd)) { if (pre_write(fd, &n, &a, &torn)) return a; return post_write(fd, n, r_pwrite(fd, b, n, o), torn); }
    return r_pwrite(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    ssize_t a; int torn;
    if (is_tracked(fd)) { if (pre_write(fd, &n, &a, &torn)) return a; return post_write(fd, n, r_pwrite64(fd, b, n, o), torn); }
    return r_pwrite64(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (is_tracked(fd)) return c > 0 ? write(fd, v[0].iov_base, v[0].iov_len) : 0;   /* a legal short write */
    return r_writev(fd, v, c);
}

/* ------------------------------------------------------------ the rest */

int close(int fd)
{
    if (is_tracked(fd)) {
        int tag = fdtag[fd];
        tracked[fd] = 0;
        if (crashed || dead(fd)) { r_close(fd); if (crashed && !dead(fd)) { errno = EIO; return -1; } return 0; }
        struct fault *f = hit(K_CLOSE);
        int rc = r_close(fd);
        if (f && f->action == A_ERRNO) { note(K_CLOSE, A_ERRNO, tag, fd, 0, -f->arg); errno = f->arg; return -1; }
        if (f && f->action == A_CRASH) { note(K_CLOSE, A_CRASH, tag, fd, 0, 0); crashed = 1; errno = EIO; return -1; }
        note(K_CLOSE, 0, tag, fd, 0, rc);
        return rc;
    }
    return r_close(fd);
}
static int dup_track(int from, int to)
{
    if (to >= 0 && to < MAXFD) {
        if (is_tracked(from)) { tracked[to] = 1; gen_of[to] = gen_of[from]; fdtag[to] = fdtag[from]; fd_op[to] = fd_op[from]; fdwr[to] = fdwr[from]; }
        else tracked[to] = 0;
    }
    return to;
}
int dup(int fd) { return dup_track(fd, r_dup(fd)); }
int dup2(int a, int b) { return dup_track(a, r_dup2(a, b)); }
int dup3(int a, int b, int f) { return dup_track(a, r_dup3(a, b, f)); }

static int path_op(int kind, const char *rel, int *err)
{
    if (crashed) { *err = EIO; return 1; }
    struct fault *f = hit(kind);
    char relbuf[256];
    strncpy(relbuf, rel, 255); relbuf[255] = 0;
    int tag = tag_of(relbuf);
    if (f && f->action == A_ERRNO) { note(kind, A_ERRNO, tag, -1, 0, -f->arg); *err = f->arg; return 1; }
    if (f && f->action == A_CRASH) { note(kind, A_CRASH, tag, -1, 0, 0); crashed = 1; *err = EIO; return 1; }
    note(kind, 0, tag, -1, 0, 0);
    return 0;
}
#define GUARD(kind, dirfd, p) { const char *rel = under(dirfd, p); int e; if (rel && path_op(kind, rel, &e)) { errno = e; return -1; } }
int rename(const char *a, const char *b) { GUARD(K_RENAME, AT_FDCWD, b) return r_rename(a, b); }
int renameat(int d, const char *a, int e2, const char *b) { GUARD(K_RENAME, e2, b) return r_renameat(d, a, e2, b); }
int unlink(const char *p) { GUARD(K_UNLINK, AT_FDCWD, p) return r_unlink(p); }
int unlinkat(int d, const char *p, int f) { GUARD(K_UNLINK, d, p) return r_unlinkat(d, p, f); }
int rmdir(const char *p) { GUARD(K_UNLINK, AT_FDCWD, p) return r_rmdir(p); }
int mkdir(const char *p, mode_t m) { GUARD(K_MKDIR, AT_FDCWD, p) return r_mkdir(p, m); }
int mkdirat(int d, const char *p, mode_t m) { GUARD(K_MKDIR, d, p) return r_mkdirat(d, p, m); }
int truncate(const char *p, off_t l) { GUARD(K_TRUNC, AT_FDCWD, p) return r_truncate(p, l); }
static int fd_sync(int fd)
{
    if (!is_tracked(fd)) return 0;
    if (crashed || dead(fd)) { errno = EIO; return 1; }
    struct fault *f = hit(K_FSYNC);
    if (f && f->action == A_ERRNO) { note(K_FSYNC, A_ERRNO, fdtag[fd], fd, 0, -f->arg); errno = f->arg; return 1; }
    if (f && f->action == A_CRASH) { note(K_FSYNC, A_CRASH, fdtag[fd], fd, 0, 0); crashed = 1; errno = EIO; return 1; }
    note(K_FSYNC, 0, fdtag[fd], fd, 0, 0);
    return 0;
}
int fsync(int fd) { return fd_sync(fd) ? -1 : r_fsync(fd); }
int fdatasync(int fd) { return fd_sync(fd) ? -1 : r_fdatasync(fd); }
int ftruncate(int fd, off_t l)
{
    if (is_tracked(fd)) { if (crashed || dead(fd)) return 0; counts[K_TRUNC]++; note(K_TRUNC, 0, fdtag[fd], fd, l, 0); }
    return r_ftruncate(fd, l);
}
int ftruncate64(int fd, off64_t l)
{
    if (is_tracked(fd)) { if (crashed || dead(fd)) return 0; counts[K_TRUNC]++; note(K_TRUNC, 0, fdtag[fd], fd, l, 0); }
    return r_ftruncate64(fd, l);
}

/* --- time, randomness and process id of a simulated process (SIMIO_CLOCK, SIMIO_RANDOM, SIMIO_PID; off by default) */

static long long clock_set = -1;       /* seconds since 1970 at which the wall clock starts; it advances 1 us per query */
static uint64_t rnd;
static int rnd_on;
static long pid_set;
static long long ticks;
static int world_ready;

static void world(void)
{
    const char *v;
    if (world_ready) return;
    world_ready = 1;
    if ((v = getenv("SIMIO_CLOCK"))) clock_set = atoll(v);
    if ((v = getenv("SIMIO_RANDOM"))) { rnd = strtoull(v, NULL, 10) * 2 + 1; rnd_on = 1; }
    if ((v = getenv("SIMIO_PID"))) pid_set = atol(v);
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    world();
    if (clock_set < 0 || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)) return real(id, ts);
    ticks++;
    ts->tv_sec = clock_set + ticks / 1000000;
    ts->tv_nsec = (ticks % 1000000) * 1000;
    return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    static int (*real)(struct timeval *, void *);
    if (!real) real = dlsym(RTLD_NEXT, "gettimeofday");
    world();
    if (clock_set < 0 || !tv) return real(tv, tz);
    ticks++;
    tv->tv_sec = clock_set + ticks / 1000000;
    tv->tv_usec = ticks % 1000000;
    return 0;
}
time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
static void fill(void *buf, size_t n)
{
    unsigned char *p = buf;
    while (n--) {
        rnd = rnd * 6364136223846793005ULL + 1442695040888963407ULL;
        *p++ = (unsigned char)(rnd >> 56);
    }
}
ssize_t getrandom(void *buf, size_t n, unsigned flags)
{
    static ssize_t (*real)(void *, size_t, unsigned);
    if (!real) real = dlsym(RTLD_NEXT, "getrandom");
    world();
    if (!rnd_on) return real(buf, n, flags);
    fill(buf, n);
    return (ssize_t)n;
}
int getentropy(void *buf, size_t n)
{
    static int (*real)(void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "getentropy");
    world();
    if (!rnd_on) return real(buf, n);
    fill(buf, n);
    return 0;
}
pid_t getpid(void)
{
    static pid_t (*real)(void);
    if (!real) real = dlsym(RTLD_NEXT, "getpid");
    world();
    return pid_set ? (pid_t)pid_set : real();
}
