/* LD_PRELOAD seam of the simulator: file system calls, directory order, the
 * wall clock and (for the native statistics module) malloc.  Inert until the
 * controlling Python code switches it on in the process it runs in; acts only
 * on paths below the scratch root it is given. */
#define _GNU_SOURCE
#undef _FORTIFY_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

enum { K_OPEN, K_READ, K_WRITE, K_CLOSE, K_MMAP, K_RENAME, K_MKDIR, K_UNLINK, K_COPY, K_DIR, K_TRUNC, K_SYNC, K_N };
enum { A_NONE, A_ERR, A_SHORT, A_CRASH, A_CRASH_AFTER, A_CRASH_TORN, A_STICKY };

static int on = 0;
static char root[PATH_MAX];
static size_t rootlen = 0;
static long cnt[K_N], cnt_all;
#define NPLAN 64
static struct { int kind; long idx; int action; long arg; int err; int fired; } plan[NPLAN];
static int nplan = 0;
static int sticky_kind[K_N];   /* errno to fail with, 0 = none */
static long fired_total = 0;
#define LOGN 4096
static struct { int kind; int action; long n; char name[48]; } lg[LOGN];
static long lgn = 0;
static int dirshuffle = 0;
static uint64_t dirseed = 0;
static int clk_on = 0;
static int64_t clk_ns = 0, clk_step = 0;
static long clk_reads = 0;
static int inside = 0;

#define REAL(name) static __typeof__(name) *real = NULL; if (!real) real = (__typeof__(name)*)dlsym(RTLD_NEXT, #name)

EXPORT void sim_root(const char *p) { snprintf(root, sizeof root, "%s", p); rootlen = strlen(root); }
EXPORT void sim_enable(int v) { on = v; }
EXPORT void sim_reset(void) {
    memset(cnt, 0, sizeof cnt); cnt_all = 0; nplan = 0; memset(sticky_kind, 0, sizeof sticky_kind);
    fired_total = 0; lgn = 0;
}
EXPORT int sim_plan(int kind, long idx, int action, long arg, int err) {
    if (nplan >= NPLAN) return -1;
    plan[nplan].kind = kind; plan[nplan].idx = idx; plan[nplan].action = action;
    plan[nplan].arg = arg; plan[nplan].err = err; plan[nplan].fired = 0; nplan++;
    return 0;
}
EXPORT void sim_heal(void) { nplan = 0; memset(sticky_kind, 0, sizeof sticky_kind); }
EXPORT long sim_count(int kind) { return kind < 0 ? cnt_all : cnt[kind]; }
EXPORT long sim_fired(void) { return fired_total; }
EXPORT long sim_log_len(void) { return lgn < LOGN ? lgn : LOGN; }
EXPORT int sim_log_get(long i, int *kind, int *action, long *n, char *name, int cap) {
    if (i < 0 || i >= lgn || i >= LOGN) return -1;
    *kind = lg[i].kind; *action = lg[i].action; *n = lg[i].n; snprintf(name, cap, "%s", lg[i].name);
    return 0;
}
EXPORT void sim_dirshuffle(int v, uint64_t seed) { dirshuffle = v; dirseed = seed; }
EXPORT void sim_clock(int v, int64_t ns, int64_t step) { clk_on = v; clk_ns = ns; clk_step = step; clk_reads = 0; }
EXPORT long sim_clock_reads(void) { return clk_reads; }
EXPORT int64_t sim_clock_now(void) { return clk_ns; }

static int tracked_path(const char *p) {
    if (!on || !rootlen || !p) return 0;
    if (p[0] == '/') return strncmp(p, root, rootlen) == 0 && (p[rootlen] == 0 || p[rootlen] == '/');
    char buf[PATH_MAX];
    if (!getcwd(buf, sizeof buf)) return 0;
    return strncmp(buf, root, rootlen) == 0 && (buf[rootlen] == 0 || buf[rootlen] == '/');
}
static int fd_path(int fd, char *buf, size_t cap) {
    char lk[64];
    snprintf(lk, sizeof lk, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(lk, buf, cap - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    return 1;
}
static int tracked_fd(int fd, char *buf, size_t cap) {
    if (!on || !rootlen || fd < 3) return 0;
    int e = errno;
    int r = fd_path(fd, buf, cap) && strncmp(buf, root, rootlen) == 0 && (buf[rootlen] == '/' || buf[rootlen] == 0);
    errno = e;
    return r;
}
static const char *base(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }

static void logrec(int kind, int action, long n, const char *path) {
    if (lgn < LOGN) {
        lg[lgn].kind = kind; lg[lgn].action = action; lg[lgn].n = n;
        snprintf(lg[lgn].name, sizeof lg[lgn].name, "%.47s", base(path));
    }
    lgn++;
}
/* decide what happens to this operation; returns action, sets *arg, *err */
static int decide(int kind, const char *path, long n, long *arg, int *err) {
    long i = cnt[kind]++, all = cnt_all++;
    int act = A_NONE;
    *arg = 0; *err = 0;
    for (int k = 0; k < nplan; k++) {
        if (plan[k].fired) continue;
        if ((plan[k].kind == kind && plan[k].idx == i) || (plan[k].kind == -1 && plan[k].idx == all)) {
            plan[k].fired = 1;
            act = plan[k].action; *arg = plan[k].arg; *err = plan[k].err;
            fired_total++;
            if (act == A_STICKY) { sticky_kind[kind] = *err; act = A_ERR; }
            break;
        }
    }
    if (act == A_NONE && sticky_kind[kind]) { act = A_ERR; *err = sticky_kind[kind]; }
    logrec(kind, act, n, path);
    if (act == A_CRASH) _exit(137);
    return act;
}
static void after(int act) { if (act == A_CRASH_AFTER) _exit(137); }

/* ---- open family ---- */
static int need_mode(int flags) { return (flags & O_CREAT) || ((flags & O_TMPFILE) == O_TMPFILE); }
#define OPENBODY(CALL, P) \
    long arg; int err, act = A_NONE; \
    int tr = tracked_path(P); \
    if (tr) { act = decide(K_OPEN, P, flags, &arg, &err); if (act == A_ERR) { errno = err; return -1; } } \
    int r = CALL; \
    if (tr) after(act); \
    return r;

EXPORT int open(const char *p, int flags, ...) {
    mode_t m = 0; if (need_mode(flags)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    REAL(open); OPENBODY(real(p, flags, m), p)
}
EXPORT int open64(const char *p, int flags, ...) {
    mode_t m = 0; if (need_mode(flags)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    REAL(open64); OPENBODY(real(p, flags, m), p)
}
EXPORT int openat(int d, const char *p, int flags, ...) {
    mode_t m = 0; if (need_mode(flags)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    REAL(openat); OPENBODY(real(d, p, flags, m), p)
}
EXPORT int openat64(int d, const char *p, int flags, ...) {
    mode_t m = 0; if (need_mode(flags)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    REAL(openat64); OPENBODY(real(d, p, flags, m), p)
}
EXPORT FILE *fopen(const char *p, const char *mode) {
    REAL(fopen);
    long arg; int err, act = A_NONE, tr = tracked_path(p);
    if (tr) { act = decide(K_OPEN, p, 0, &arg, &err); if (act == A_ERR) { errno = err; return NULL; } }
    FILE *f = real(p, mode); if (tr) after(act); return f;
}
EXPORT FILE *fopen64(const char *p, const char *mode) {
    REAL(fopen64);
    long arg; int err, act = A_NONE, tr = tracked_path(p);
    if (tr) { act = decide(K_OPEN, p, 0, &arg, &err); if (act == A_ERR) { errno = err; return NULL; } }
    FILE *f = real(p, mode); if (tr) after(act); return f;
}

/* ---- read family ---- */
#define RDBODY(KIND, CALL) \
    char pb[PATH_MAX]; long arg; int err, act = A_NONE, tr = tracked_fd(fd, pb, sizeof pb); \
    if (tr) { act = decide(KIND, pb, (long)n, &arg, &err); \
        if (act == A_ERR) { errno = err; return -1; } \
        if ((act == A_SHORT || act == A_CRASH_TORN) && n > 0) { if (arg < 1) arg = 1; if ((size_t)arg < n) n = arg; } } \
    ssize_t r = CALL; \
    if (tr) { if (act == A_CRASH_TORN) _exit(137); after(act); } \
    return r;
EXPORT ssize_t read(int fd, void *b, size_t n) { REAL(read); RDBODY(K_READ, real(fd, b, n)) }
EXPORT ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return read(fd, b, n); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(pread); RDBODY(K_READ, real(fd, b, n, o)) }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(pread64); RDBODY(K_READ, real(fd, b, n, o)) }
EXPORT ssize_t write(int fd, const void *b, size_t n) { REAL(write); RDBODY(K_WRITE, real(fd, b, n)) }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); RDBODY(K_WRITE, real(fd, b, n, o)) }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); RDBODY(K_WRITE, real(fd, b, n, o)) }

EXPORT size_t fread(void *b, size_t sz, size_t nm, FILE *f) {
    REAL(fread);
    char pb[PATH_MAX]; long arg; int err;
    if (on && tracked_fd(fileno(f), pb, sizeof pb)) {
        int act = decide(K_READ, pb, (long)(sz * nm), &arg, &err);
        if (act == A_ERR || act == A_SHORT) {
            size_t got = 0;
            if (act == A_SHORT && sz) { size_t k = (size_t)arg / sz; if (k > nm) k = nm; got = real(b, sz, k, f); if (got == nm) return got; err = err ? err : EIO; }
            f->_flags |= 0x20; errno = err; return got;
        }
        size_t r = real(b, sz, nm, f);
        if (act == A_CRASH_TORN) _exit(137);
        after(act);
        return r;
    }
    return real(b, sz, nm, f);
}
EXPORT size_t __fread_chk(void *b, size_t bl, size_t sz, size_t nm, FILE *f) { (void)bl; return fread(b, sz, nm, f); }
EXPORT size_t fwrite(const void *b, size_t sz, size_t nm, FILE *f) {
    REAL(fwrite);
    char pb[PATH_MAX]; long arg; int err;
    if (on && tracked_fd(fileno(f), pb, sizeof pb)) {
        int act = decide(K_WRITE, pb, (long)(sz * nm), &arg, &err);
        if (act == A_ERR || act == A_SHORT || act == A_CRASH_TORN) {
            size_t got = 0;
            if (act != A_ERR && sz) { size_t k = (size_t)arg / sz; if (k > nm) k = nm; got = real(b, sz, k, f); fflush(f); }
            if (act == A_CRASH_TORN) _exit(137);
            if (got == nm) return got;
            f->_flags |= 0x20; errno = err ? err : ENOSPC; return got;
        }
        size_t r = real(b, sz, nm, f);
        after(act);
        return r;
    }
    return real(b, sz, nm, f);
}
EXPORT int close(int fd) {
    REAL(close);
    char pb[PATH_MAX]; long arg; int err, act = A_NONE, tr = tracked_fd(fd, pb, sizeof pb);
    if (tr) act = decide(K_CLOSE, pb, 0, &arg, &err);
    int r = real(fd);
    if (tr && act == A_ERR) { errno = err; return -1; }
    if (tr) after(act);
    return r;
}
EXPORT int fsync(int fd) {
    REAL(fsync);
    char pb[PATH_MAX]; long arg; int err, act = A_NONE, tr = tracked_fd(fd, pb, sizeof pb);
    if (tr) { act = decide(K_SYNC, pb, 0, &arg, &err); if (act == A_ERR) { errno = err; return -1; } }
    int r = real(fd); if (tr) after(act); return r;
}
EXPORT void *mmap(void *a, size_t l, int pr, int fl, int fd, off_t o) {
    REAL(mmap);
    if (on && fd >= 3 && !inside) {
        char pb[PATH_MAX]; long arg; int err;
        if (tracked_fd(fd, pb, sizeof pb)) {
            int act = decide(K_MMAP, pb, (long)l, &arg, &err);
            if (act == A_ERR) { errno = err; return MAP_FAILED; }
        }
    }
    return real(a, l, pr, fl, fd, o);
}
EXPORT void *mmap64(void *a, size_t l, int pr, int fl, int fd, off64_t o) {
    REAL(mmap64);
    if (on && fd >= 3 && !inside) {
        char pb[PATH_MAX]; long arg; int err;
        if (tracked_fd(fd, pb, sizeof pb)) {
            int act = decide(K_MMAP, pb, (long)l, &arg, &err);
            if (act == A_ERR) { errno = err; return MAP_FAILED; }
        }
    }
    return real(a, l, pr, fl, fd, o);
}
#define PATHBODY(KIND, P, CALL) \
    long arg; int err, act = A_NONE, tr = tracked_path(P); \
    if (tr) { act = decide(KIND, P, 0, &arg, &err); if (act == A_ERR) { errno = err; return -1; } } \
    int r = CALL; if (tr) after(act); return r;
EXPORT int rename(const char *a, const char *b) { REAL(rename); PATHBODY(K_RENAME, b, real(a, b)) }
EXPORT int renameat(int d1, const char *a, int d2, const char *b) { REAL(renameat); PATHBODY(K_RENAME, b, real(d1, a, d2, b)) }
EXPORT int mkdir(const char *p, mode_t m) { REAL(mkdir); PATHBODY(K_MKDIR, p, real(p, m)) }
EXPORT int unlink(const char *p) { REAL(unlink); PATHBODY(K_UNLINK, p, real(p)) }
EXPORT int ftruncate(int fd, off_t n) {
    REAL(ftruncate);
    char pb[PATH_MAX]; long arg; int err, act = A_NONE, tr = tracked_fd(fd, pb, sizeof pb);
    if (tr) { act = decide(K_TRUNC, pb, n, &arg, &err); if (act == A_ERR) { errno = err; return -1; } }
    int r = real(fd, n); if (tr) after(act); return r;
}
EXPORT int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    char pb[PATH_MAX]; long arg; int err, act = A_NONE, tr = tracked_fd(fd, pb, sizeof pb);
    if (tr) { act = decide(K_TRUNC, pb, n, &arg, &err); if (act == A_ERR) { errno = err; return -1; } }
    int r = real(fd, n); if (tr) after(act); return r;
}
EXPORT ssize_t sendfile(int out, int in, off_t *o, size_t n) {
    REAL(sendfile); int fd = out; RDBODY(K_COPY, real(out, in, o, n))
}
EXPORT ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    REAL(sendfile64); int fd = out; RDBODY(K_COPY, real(out, in, o, n))
}
EXPORT ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    REAL(copy_file_range); int fd = out; RDBODY(K_COPY, real(in, oi, out, oo, n, fl))
}

/* ---- directory order ---- */
typedef struct { DIR *d; int n, pos, err; struct dirent *e; int loaded; } dent_t;
#define ND 64
static dent_t dt[ND];
static uint64_t rnd(uint64_t *s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static int dcmp(const void *a, const void *b) { return strcmp(((const struct dirent *)a)->d_name, ((const struct dirent *)b)->d_name); }
static struct dirent *sim_readdir(DIR *d, struct dirent *(*real)(DIR *)) {
    if (!on || !dirshuffle) return real(d);
    dent_t *t = NULL;
    for (int i = 0; i < ND; i++) if (dt[i].d == d) { t = &dt[i]; break; }
    if (!t) {
        char pb[PATH_MAX]; long arg; int err;
        if (!tracked_fd(dirfd(d), pb, sizeof pb)) return real(d);
        int act = decide(K_DIR, pb, 0, &arg, &err);
        if (act == A_ERR) { errno = err; return NULL; }
        for (int i = 0; i < ND; i++) if (!dt[i].d) { t = &dt[i]; break; }
        if (!t) return real(d);
        t->d = d; t->n = 0; t->pos = 0; t->err = 0; t->e = NULL;
        struct dirent *e; int cap = 0;
        while ((e = real(d))) {
            if (t->n == cap) { cap = cap ? cap * 2 : 32; t->e = realloc(t->e, cap * sizeof(struct dirent)); }
            memcpy(&t->e[t->n], e, e->d_reclen < sizeof(struct dirent) ? e->d_reclen : sizeof(struct dirent)); t->n++;
        }
        qsort(t->e, t->n, sizeof(struct dirent), dcmp);   /* start from a canonical order */
        uint64_t s = dirseed; for (const char *q = base(pb); *q; q++) s = s * 131 + (unsigned char)*q;
        for (int i = t->n - 1; i > 0; i--) { int j = rnd(&s) % (i + 1); struct dirent x = t->e[i]; t->e[i] = t->e[j]; t->e[j] = x; }
        if (act == A_SHORT) { if (arg < 0) arg = 0; if (arg < t->n) t->n = arg; t->err = err ? err : EIO; }   /* fails midway */
    }
    if (t->pos >= t->n) { if (t->err) errno = t->err; return NULL; }
    return &t->e[t->pos++];
}
EXPORT struct dirent *readdir(DIR *d) { REAL(readdir); return sim_readdir(d, real); }
EXPORT struct dirent64 *readdir64(DIR *d) { REAL(readdir64); return (struct dirent64 *)sim_readdir(d, (struct dirent *(*)(DIR *))real); }
EXPORT int closedir(DIR *d) {
    REAL(closedir);
    for (int i = 0; i < ND; i++) if (dt[i].d == d) { free(dt[i].e); memset(&dt[i], 0, sizeof dt[i]); }
    return real(d);
}

/* ---- clock ---- */
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
    REAL(clock_gettime);
    if (clk_on && c == CLOCK_REALTIME) {
        clk_ns += clk_step; clk_reads++;
        ts->tv_sec = clk_ns / 1000000000LL; ts->tv_nsec = clk_ns % 1000000000LL;
        return 0;
    }
    return real(c, ts);
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
    static int (*real)(struct timeval *, void *) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "gettimeofday");
    if (clk_on) { clk_ns += clk_step; clk_reads++; tv->tv_sec = clk_ns / 1000000000LL; tv->tv_usec = (clk_ns % 1000000000LL) / 1000; return 0; }
    return real(tv, tz);
}
EXPORT time_t time(time_t *t) {
    static time_t (*real)(time_t *) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "time");
    if (clk_on) { clk_ns += clk_step; clk_reads++; time_t v = clk_ns / 1000000000LL; if (t) *t = v; return v; }
    return real(t);
}

/* ---- allocation seam of the native statistics module ---- */
static long m_count = 0, m_fail = -1; static int m_sticky = 0; static long m_live = 0, m_fired = 0;
static unsigned char m_junk = 0; static int m_fill = 0;
EXPORT void simm_config(long fail, int sticky, int fill, int junk) { m_count = 0; m_fail = fail; m_sticky = sticky; m_fill = fill; m_junk = junk; m_fired = 0; }
EXPORT long simm_count(void) { return m_count; }
EXPORT long simm_live(void) { return m_live; }
EXPORT long simm_fired(void) { return m_fired; }
static int m_should_fail(void) { long i = m_count++; if (m_fail >= 0 && (i == m_fail || (m_sticky && i > m_fail))) { m_fired++; return 1; } return 0; }
/* Plain malloc'd blocks (so that ownership may be handed to code that calls free), with a
 * trailing canary remembered in a side table. */
#define NB 4096
static struct { char *p; size_t n; } blk[NB];
static void canary_check(char *p, size_t n) {
    for (int i = 0; i < 16; i++)
        if ((unsigned char)p[n + i] != 0x5C) {
            static const char m[] = "SIM: heap overrun in native module\n";
            ssize_t r = write(2, m, sizeof m - 1); (void)r;
            _exit(99);
        }
}
/* Guarded placement: the block ends at an inaccessible page; what lies before it is junk that
 * must stay as it is. */
#define ARENA (1UL << 34)
static char *arena = NULL; static size_t arena_at = 0; static int m_guard = 0;
EXPORT void simm_guard(int on) { m_guard = on; }
static void *guard_alloc(size_t n) {
    if (!arena) { arena = mmap(NULL, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (arena == MAP_FAILED) { arena = NULL; return NULL; } }
    size_t al = n & -n; if (al > 16 || al == 0) al = 16;
    size_t body = (n + al - 1) / al * al, len = (body + 16 + 4095) / 4096 * 4096;
    if (arena_at + len + 4096 > ARENA) return NULL;
    char *m = arena + arena_at;
    arena_at += len + 4096;
    if (mprotect(m, len, PROT_READ | PROT_WRITE)) return NULL;
    memset(m, m_fill ? m_junk ^ 0x3C : 0x99, len);
    memcpy(m, &n, sizeof n); memcpy(m + 8, &len, 8);
    return m + len - body;
}
static char *guard_block(void *q) {           /* start of the block's pages */
    size_t at = 0;
    while (at < arena_at) {
        size_t len; memcpy(&len, arena + at + 8, 8);
        if ((char *)q >= arena + at && (char *)q < arena + at + len) return arena + at;
        at += len + 4096;
    }
    return NULL;
}
static int in_arena(void *q) { return arena && (char *)q >= arena && (char *)q < arena + ARENA; }
static void guard_free(void *q) {
    char *m = guard_block(q);
    if (!m) return;
    unsigned char first = (unsigned char)m[16];
    for (char *x = m + 16; x < (char *)q; x++)
        if ((unsigned char)*x != first) {
            static const char t[] = "SIM: heap underrun in native module\n";
            ssize_t r = write(2, t, sizeof t - 1); (void)r;
            _exit(99);
        }
    size_t n; memcpy(&n, m, 8);
    m_live -= n;
    n = 0; memcpy(m, &n, 8);
    /* the pages are kept so that the walk stays valid; freed contents become junk */
    memset(q, 0xDB, m + *(size_t *)(m + 8) - (char *)q);
}
extern void __libc_free(void *);
EXPORT void free(void *q) { if (in_arena(q)) guard_free(q); else __libc_free(q); }
EXPORT void *verif_malloc(size_t n) {
    if (m_should_fail()) return NULL;
    if (n > SIZE_MAX - 16) return NULL;
    if (m_guard) {
        char *g = guard_alloc(n);
        if (!g) return NULL;
        memset(g, m_fill ? m_junk : 0xA5, n);
        m_live += n;
        return g;
    }
    char *p = malloc(n + 16);
    if (!p) return NULL;
    memset(p, m_fill ? m_junk : 0xA5, n);
    memset(p + n, 0x5C, 16);
    int slot = -1;
    for (int i = 0; i < NB; i++) {
        if (blk[i].p == p) { m_live -= blk[i].n; slot = i; break; }
        if (!blk[i].p && slot < 0) slot = i;
    }
    if (slot >= 0) { blk[slot].p = p; blk[slot].n = n; }
    m_live += n;
    return p;
}
EXPORT void *verif_calloc(size_t a, size_t b) {
    if (b && a > SIZE_MAX / b) return NULL;
    void *p = verif_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
EXPORT void verif_free(void *q) {
    if (!q) return;
    if (in_arena(q)) { guard_free(q); return; }
    for (int i = 0; i < NB; i++)
        if (blk[i].p == q) { canary_check(q, blk[i].n); m_live -= blk[i].n; blk[i].p = NULL; break; }
    free(q);
}
EXPORT void *verif_realloc(void *q, size_t n) {
    if (!q) return verif_malloc(n);
    size_t o = 0;
    for (int i = 0; i < NB; i++) if (blk[i].p == q) o = blk[i].n;
    if (in_arena(q)) { char *m = guard_block(q); if (m) memcpy(&o, m, 8); }
    void *r = verif_malloc(n);
    if (!r) return NULL;
    memcpy(r, q, o < n ? o : n);
    verif_free(q);
    return r;
}
