/*
 * I/O, clock and entropy seam of the simulator (LD_PRELOAD).
 *
 * Off until sim_arm() is called in a simulated process.  Then every file
 * operation below one of the tracked path prefixes is numbered, logged to a
 * shared-memory record (which survives the simulated crash) and looked up in
 * the fault plan.  With a scheduler attached, every operation also waits for
 * its turn, so that the simulator decides the interleaving of several
 * processes.  Clock, pid and entropy come from the plan, never from the host.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
#define PATHLEN 232
#define MAXPLAN 64

enum { OP_OPENW = 1, OP_OPENR, OP_WRITE, OP_READ, OP_CLOSE, OP_RENAME, OP_MKDIR,
       OP_UNLINK, OP_RMDIR, OP_FSYNC, OP_TRUNC, OP_LINK };
enum { ACT_NONE = 0, ACT_ERR, ACT_SHORT, ACT_CRASH_BEFORE, ACT_CRASH_AFTER, ACT_TORN,
       ACT_EOF };

struct rec { int32_t op, act, result, tracked; int64_t size; char path[PATHLEN]; };
struct shm { int64_t n, cap, dead; int64_t pad; struct rec r[]; };
struct plan { int64_t index; int32_t act, arg; int32_t opmask, fired; };

static struct shm *S;
static struct plan P[MAXPLAN];
static int nP;
static char prefix[PATHLEN], work[PATHLEN];
static int armed, logall;
static int64_t counter;
static int req_fd = -1, ack_fd = -1;
static unsigned char fdt[MAXFD];           /* 1 = tracked */
static unsigned char fdw[MAXFD];
static char (*fdpath)[PATHLEN];
static int clock_on; static int64_t clock_ns, clock_step; static int64_t jump_at, jump_ns, clock_reads;
static int ent_on; static uint64_t ent_s;
static int sim_pid;
static int64_t fired_count;

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, #name)

static void abspath(int dirfd, const char *p, char *out) {
    char b[2 * PATHLEN + 600];
    if (p[0] == '/') snprintf(b, sizeof b, "%s", p);
    else {
        char d[512] = "";
        if (dirfd == AT_FDCWD) { if (!getcwd(d, sizeof d)) d[0] = 0; }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
               ssize_t k = readlink(l, d, sizeof d - 1); if (k < 0) k = 0; d[k] = 0; }
        snprintf(b, sizeof b, "%s/%s", d, p);
    }
    /* squeeze // and /./ and /../ */
    char *o = out, *end = out + PATHLEN - 1; const char *s = b;
    while (*s && o < end) {
        while (s[0] == '/' && s[1] == '/') s++;
        if (s[0] == '/' && s[1] == '.' && (s[2] == '/' || !s[2])) { s += 2; continue; }
        if (s[0] == '/' && s[1] == '.' && s[2] == '.' && (s[3] == '/' || !s[3])) {
            while (o > out && *--o != '/') ;
            s += 3; continue;
        }
        *o++ = *s++;
        while (*s && *s != '/' && o < end) *o++ = *s++;
    }
    *o = 0;
    if (!out[0]) strcpy(out, "/");
}

static int is_tracked(const char *p) {
    size_t n = strlen(prefix);
    return n && !strncmp(p, prefix, n);
}

static void turn(int op, const char *path) {
    if (req_fd < 0) return;
    char c = (char)op, g;
    (void)path;
    ssize_t k;
    do k = syscall(SYS_write, req_fd, &c, 1); while (k < 0 && errno == EINTR);
    do k = syscall(SYS_read, ack_fd, &g, 1); while (k < 0 && errno == EINTR);
    if (k != 1) syscall(SYS_exit_group, 99);
}

static struct rec *note(int op, const char *path, int64_t size, int tracked) {
    if (!S || S->n >= S->cap) { if (S) S->n++; return 0; }
    struct rec *r = &S->r[S->n++];
    r->op = op; r->act = 0; r->result = 0; r->size = size; r->tracked = tracked;
    strncpy(r->path, path, PATHLEN - 1);
    return r;
}

static void die(void) {
    if (S) S->dead = 1;
    syscall(SYS_exit_group, 137);
}

/* number the operation, wait for our turn, and return the planned action */
static struct plan *step(int op, const char *path, int64_t size, struct rec **rp) {
    turn(op, path);
    struct rec *r = note(op, path, size, 1);
    if (rp) *rp = r;
    int64_t k = counter++;
    for (int i = 0; i < nP; i++)
        if (!P[i].fired && ((P[i].opmask >> op) & 1)) {
            if (P[i].index == 0) {
                P[i].fired = 1; fired_count++;
                if (r) r->act = P[i].act;
                if (P[i].act == ACT_CRASH_BEFORE) die();
                return &P[i];
            }
            P[i].index--;
        }
    (void)k;
    return 0;
}

/* ------------------------------------------------------------------ control */
void sim_arm(void *shm, const char *pre, const char *workdir, int all) {
    S = shm; strncpy(prefix, pre, PATHLEN - 1); strncpy(work, workdir, PATHLEN - 1);
    logall = all; counter = 0; nP = 0; fired_count = 0;
    if (!fdpath) fdpath = calloc(MAXFD, PATHLEN);
    memset(fdt, 0, sizeof fdt);
    armed = 1;
}
void sim_plan(int64_t index, int opmask, int act, int arg) {
    if (nP < MAXPLAN) { P[nP].index = index; P[nP].opmask = opmask; P[nP].act = act;
                        P[nP].arg = arg; P[nP].fired = 0; nP++; }
}
void sim_disarm(void) { armed = 0; nP = 0; req_fd = ack_fd = -1; }
void sim_clear_plan(void) { nP = 0; }
int64_t sim_fired(void) { return fired_count; }
int64_t sim_count(void) { return counter; }
void sim_sched(int rq, int ak) { req_fd = rq; ack_fd = ak; }
void sim_clock(int64_t ns, int64_t stepns, int64_t at, int64_t jump) {
    clock_on = ns != 0; clock_ns = ns; clock_step = stepns; jump_at = at; jump_ns = jump; clock_reads = 0; }
int64_t sim_clock_reads(void) { return clock_reads; }
void sim_entropy(uint64_t seed) { ent_on = seed != 0; ent_s = seed; }
void sim_setpid(int pid) { sim_pid = pid; }

/* ------------------------------------------------------------------- files */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!armed || !path) return (int)syscall(SYS_openat, dirfd, path, flags, mode);
    char ap[PATHLEN]; abspath(dirfd, path, ap);
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!is_tracked(ap)) {
        if (logall && w) note(OP_OPENW, ap, 0, 0);
        return (int)syscall(SYS_openat, dirfd, path, flags, mode);
    }
    if (flags & O_DIRECTORY) return (int)syscall(SYS_openat, dirfd, path, flags, mode);
    struct rec *r; struct plan *p = step(w ? OP_OPENW : OP_OPENR, ap, 0, &r);
    if (p && p->act == ACT_ERR) { if (r) r->result = -p->arg; errno = p->arg; return -1; }
    int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) { fdt[fd] = 1; fdw[fd] = w; strcpy(fdpath[fd], ap); }
    if (r) r->result = fd < 0 ? -errno : 0;
    if (p && (p->act == ACT_CRASH_AFTER || p->act == ACT_TORN)) die();
    return fd;
}
#define OPENBODY(dirfd) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    return do_open(dirfd, path, flags, mode);
int open(const char *path, int flags, ...) { OPENBODY(AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPENBODY(AT_FDCWD) }
int openat(int dirfd, const char *path, int flags, ...) { OPENBODY(dirfd) }
int openat64(int dirfd, const char *path, int flags, ...) { OPENBODY(dirfd) }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static FILE *do_fopen(const char *path, const char *mode, FILE *(*real)(const char *, const char *)) {
    if (!armed) return real(path, mode);
    int fl, w = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
    char ap[PATHLEN]; abspath(AT_FDCWD, path, ap);
    if (!is_tracked(ap)) { if (logall && w) note(OP_OPENW, ap, 0, 0); return real(path, mode); }
    fl = strchr(mode, 'w') ? O_CREAT | O_TRUNC : strchr(mode, 'a') ? O_CREAT | O_APPEND : 0;
    fl |= strchr(mode, '+') ? O_RDWR : w ? O_WRONLY : O_RDONLY;
    int fd = do_open(AT_FDCWD, path, fl, 0666);
    return fd < 0 ? 0 : fdopen(fd, mode);
}
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); return do_fopen(p, m, real); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); return do_fopen(p, m, real); }

static ssize_t do_write(int fd, const void *b, size_t n, int64_t off) {
#define RAWW(cnt) (off < 0 ? syscall(SYS_write, fd, b, cnt) : syscall(SYS_pwrite64, fd, b, cnt, off))
    if (!armed || fd < 0 || fd >= MAXFD || !fdt[fd]) return RAWW(n);
    struct rec *r; struct plan *p = step(OP_WRITE, fdpath[fd], (int64_t)n, &r);
    if (p && p->act == ACT_ERR) { if (r) r->result = -p->arg; errno = p->arg; return -1; }
    if (p && (p->act == ACT_SHORT || p->act == ACT_TORN)) {
        size_t k = n ? (size_t)p->arg % n : 0;
        if (p->act == ACT_SHORT && k == 0) k = n ? 1 : 0;
        ssize_t q = k ? RAWW(k) : 0;
        if (p->act == ACT_TORN) die();
        if (r) r->result = (int)q;
        return q;
    }
    ssize_t q = RAWW(n);
    if (r) r->result = q < 0 ? -errno : (int)q;
    if (p && p->act == ACT_CRASH_AFTER) die();
    return q;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!armed || fd < 0 || fd >= MAXFD || !fdt[fd]) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { ssize_t q = do_write(fd, v[i].iov_base, v[i].iov_len, -1);
        if (q < 0) return t ? t : q; t += q; if ((size_t)q < v[i].iov_len) break; }
    return t;
}
static ssize_t do_read(int fd, void *b, size_t n) {
    if (!armed || fd < 0 || fd >= MAXFD || !fdt[fd]) return syscall(SYS_read, fd, b, n);
    struct rec *r; struct plan *p = step(OP_READ, fdpath[fd], (int64_t)n, &r);
    if (p && p->act == ACT_ERR) { if (r) r->result = -p->arg; errno = p->arg; return -1; }
    if (p && p->act == ACT_EOF) { if (r) r->result = 0; return 0; }
    if (p && p->act == ACT_SHORT) { size_t k = n ? 1 + (size_t)p->arg % n : 0; n = k; }
    ssize_t q = syscall(SYS_read, fd, b, n);
    if (r) r->result = q < 0 ? -errno : (int)q;
    if (p && (p->act == ACT_CRASH_AFTER || p->act == ACT_TORN)) die();
    return q;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { (void)l; return do_read(fd, b, n); }

int close(int fd) {
    if (!armed || fd < 0 || fd >= MAXFD || !fdt[fd]) return (int)syscall(SYS_close, fd);
    fdt[fd] = 0;
    struct rec *r; struct plan *p = step(OP_CLOSE, fdpath[fd], fdw[fd], &r);
    int q = (int)syscall(SYS_close, fd);
    if (p && p->act == ACT_ERR) { if (r) r->result = -p->arg; errno = p->arg; return -1; }
    if (p && (p->act == ACT_CRASH_AFTER || p->act == ACT_TORN)) die();
    return q;
}

#define TWOSTEP(op, pathexpr, dirfd, call) \
    if (armed && (pathexpr)) { \
        char ap[PATHLEN]; abspath(dirfd, pathexpr, ap); \
        if (is_tracked(ap)) { \
            struct rec *r; struct plan *p = step(op, ap, 0, &r); \
            if (p && p->act == ACT_ERR) { if (r) r->result = -p->arg; errno = p->arg; return -1; } \
            int q = (int)(call); \
            if (r) r->result = q < 0 ? -errno : 0; \
            if (p && (p->act == ACT_CRASH_AFTER || p->act == ACT_TORN)) die(); \
            return q; \
        } \
        if (logall) note(op, ap, 0, 0); \
    } \
    return (int)(call);

int mkdir(const char *p0, mode_t m) { TWOSTEP(OP_MKDIR, p0, AT_FDCWD, syscall(SYS_mkdir, p0, m)) }
int mkdirat(int d, const char *p0, mode_t m) { TWOSTEP(OP_MKDIR, p0, d, syscall(SYS_mkdirat, d, p0, m)) }
int unlink(const char *p0) { TWOSTEP(OP_UNLINK, p0, AT_FDCWD, syscall(SYS_unlink, p0)) }
int unlinkat(int d, const char *p0, int f) { TWOSTEP(OP_UNLINK, p0, d, syscall(SYS_unlinkat, d, p0, f)) }
int rmdir(const char *p0) { TWOSTEP(OP_RMDIR, p0, AT_FDCWD, syscall(SYS_rmdir, p0)) }
int rename(const char *a, const char *p0) { TWOSTEP(OP_RENAME, p0, AT_FDCWD, syscall(SYS_rename, a, p0)) }
int renameat(int d1, const char *a, int d, const char *p0) { TWOSTEP(OP_RENAME, p0, d, syscall(SYS_renameat, d1, a, d, p0)) }
int renameat2(int d1, const char *a, int d, const char *p0, unsigned f) { TWOSTEP(OP_RENAME, p0, d, syscall(SYS_renameat2, d1, a, d, p0, f)) }
int link(const char *a, const char *p0) { TWOSTEP(OP_LINK, p0, AT_FDCWD, syscall(SYS_link, a, p0)) }
int symlink(const char *a, const char *p0) { TWOSTEP(OP_LINK, p0, AT_FDCWD, syscall(SYS_symlink, a, p0)) }
int truncate(const char *p0, off_t n) { TWOSTEP(OP_TRUNC, p0, AT_FDCWD, syscall(SYS_truncate, p0, n)) }
int ftruncate(int fd, off_t n) {
    if (armed && fd >= 0 && fd < MAXFD && fdt[fd]) {
        struct rec *r; struct plan *p = step(OP_TRUNC, fdpath[fd], n, &r);
        if (p && p->act == ACT_ERR) { errno = p->arg; return -1; }
        int q = (int)syscall(SYS_ftruncate, fd, n);
        if (p && (p->act == ACT_CRASH_AFTER || p->act == ACT_TORN)) die();
        return q;
    }
    return (int)syscall(SYS_ftruncate, fd, n);
}
int fsync(int fd) {
    if (armed && fd >= 0 && fd < MAXFD && fdt[fd]) {
        struct rec *r; struct plan *p = step(OP_FSYNC, fdpath[fd], 0, &r);
        if (p && p->act == ACT_ERR) { errno = p->arg; return -1; }
        if (p && (p->act == ACT_CRASH_AFTER || p->act == ACT_TORN)) die();
        return 0;
    }
    return (int)syscall(SYS_fsync, fd);
}

/* -------------------------------------------------------- clock and entropy */
static int64_t now_ns(void) {
    clock_reads++;
    if (jump_at && clock_reads == jump_at) clock_ns += jump_ns;
    clock_ns += clock_step;
    return clock_ns;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!clock_on || !ts) return (int)syscall(SYS_clock_gettime, id, ts);
    int64_t t = now_ns(); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (!clock_on || !tv) return (int)syscall(SYS_gettimeofday, tv, tz);
    int64_t t = now_ns(); tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000; return 0;
}
time_t time(time_t *o) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (o) *o = ts.tv_sec;
    return ts.tv_sec;
}
static uint64_t ent_next(void) {
    uint64_t z = (ent_s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!ent_on) return syscall(SYS_getrandom, b, n, f);
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)ent_next();
    return (ssize_t)n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
pid_t getpid(void) { return sim_pid ? sim_pid : (pid_t)syscall(SYS_getpid); }
