/* Simulated allocator and storage for the code under test (LD_PRELOAD).
 *
 * Allocator: malloc & co. called from registered code ranges (the _csphi
 * extension, numpy's FFT) and numpy's array memory (through npsim.c) are served
 * by a tracking allocator: red zones or inaccessible guard pages, poisoned
 * contents, quarantine after free, and a per-thread plan of failing requests.
 * All other callers get the C library's allocator.
 *
 * Storage: system calls on files below one directory prefix go through a
 * per-thread fault plan (short, interrupted or failing calls, full disk,
 * process kill at a chosen call or byte).  Everything else passes through.
 *
 * The simulator lets one thread run at a time, so plain variables suffice for
 * the counters; a spin lock protects the tables against the odd runtime thread.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);

#define EXPORT __attribute__((visibility("default")))

/* ------------------------------------------------------------ allocator */
enum { ID_CSPHI, ID_FFT, ID_NP, NID };
#define RZ 64
#define MAGIC 0x51BEEF5151BEEF51ULL

typedef struct blk {
    uint64_t magic;
    struct blk *next, *prev;
    char *user;
    size_t size;
    char *map;              /* fence mode: mapping, else NULL */
    size_t maplen;
    int id, freed, mode;
    long seq;
} blk;

static volatile int lk;
static void lock(void) { while (__sync_lock_test_and_set(&lk, 1)) ; }
static void unlock(void) { __sync_lock_release(&lk); }

static struct { uintptr_t lo, hi; int id; } ranges[16];
static int nranges;
static int on;                    /* tracking enabled */
static int g_mode;                /* 0 red zones, 1 fence after, 2 fence before */
static unsigned char g_poison = 0xA5;
static long seq_no;
static long live[NID], livebytes[NID], total[NID], fired[NID];
static char errbuf[256];
static long nerr;
static blk *head;                 /* live blocks */
static blk *qhead;                /* quarantined blocks */
static long nq;

static __thread long fail_k[NID]; /* countdown; 0 = off */
static __thread int fail_persist[NID];
static __thread long req[NID], mine_fired[NID];

/* pointer -> blk, open addressing; grows are not needed: fixed large table */
#define HB 17
#define HN (1u << HB)
static blk **htab;
static long hused;
static unsigned hsh(void *p) { return (unsigned)(((uintptr_t)p >> 4) * 0x9E3779B1u) >> (32 - HB); }
#define TOMB ((blk *)1)
static blk *hfind(void *p)
{
    if (!htab) return 0;
    for (unsigned i = hsh(p);; i = (i + 1) & (HN - 1)) {
        if (!htab[i]) return 0;
        if (htab[i] != TOMB && htab[i]->user == (char *)p) return htab[i];
    }
}
static int hput(blk *b)
{
    if (!htab) {
        htab = mmap(0, HN * sizeof *htab, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (htab == MAP_FAILED) { htab = 0; return 0; }
    }
    if (hused > HN / 2) return 0;
    unsigned i = hsh(b->user);
    while (htab[i] && htab[i] != TOMB) i = (i + 1) & (HN - 1);
    if (!htab[i]) hused++;
    htab[i] = b;
    return 1;
}
static void hdel(blk *b)
{
    for (unsigned i = hsh(b->user);; i = (i + 1) & (HN - 1)) {
        if (!htab[i]) return;
        if (htab[i] == b) { htab[i] = TOMB; return; }
    }
}
static void err(const char *what, blk *b)
{
    static const char *nm[] = { "native", "fft", "array" };
    if (!nerr++)
        snprintf(errbuf, sizeof errbuf, "%s (%s block of %zu bytes)", what,
                 b ? nm[b->id] : "?", b ? b->size : 0);
}
static void check_rz(blk *b)
{
    for (int i = 0; i < RZ; i++)
        if (!b->map && (unsigned char)b->user[-1 - i] != 0xFB) { err("write before the start", b); return; }
    if (!b->map) {
        for (int i = 0; i < RZ; i++)
            if ((unsigned char)b->user[b->size + i] != 0xFB) { err("write past the end", b); return; }
    } else {
        /* slack between user block and page border */
        char *e = b->map + b->maplen - 4096;
        if (b->mode == 1)
            for (char *q = b->user + b->size; q < e; q++)
                if ((unsigned char)*q != 0xFB) { err("write past the end", b); return; }
        if (b->mode == 2)
            for (char *q = b->user + b->size; q < b->map + b->maplen; q++)
                if ((unsigned char)*q != 0xFB) { err("write past the end", b); return; }
    }
}
static void *talloc(int id, size_t n, int zero)
{
    total[id]++;
    req[id]++;
    if (fail_k[id] > 0 && --fail_k[id] == 0) {
        if (fail_persist[id]) fail_k[id] = 1;
        fired[id]++; mine_fired[id]++;
        errno = ENOMEM;
        return 0;
    }
    if (n > (1ul << 34)) { errno = ENOMEM; return 0; }
    blk *b = __libc_calloc(1, sizeof *b);
    if (!b) return 0;
    b->magic = MAGIC; b->size = n; b->id = id; b->mode = g_mode;
    if (g_mode == 0) {
        char *raw = __libc_memalign(64, n + 2 * RZ + 16);
        if (!raw) { __libc_free(b); return 0; }
        memset(raw, 0xFB, n + 2 * RZ + 16);
        b->user = raw + RZ;
    } else {
        size_t pg = (n + 4095) / 4096 * 4096;
        if (!pg) pg = 4096;
        b->maplen = pg + 4096;
        b->map = mmap(0, b->maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (b->map == MAP_FAILED) { __libc_free(b); errno = ENOMEM; return 0; }
        if (g_mode == 1) {
            memset(b->map, 0xFB, pg);
            mprotect(b->map + pg, 4096, PROT_NONE);
            b->user = b->map + ((pg - n) & ~(size_t)15);
        } else {
            memset(b->map + 4096, 0xFB, pg);
            mprotect(b->map, 4096, PROT_NONE);
            b->user = b->map + 4096;
        }
    }
    memset(b->user, zero ? 0 : g_poison, n);
    lock();
    b->seq = ++seq_no;
    if (!hput(b)) { unlock(); err("harness table full", b); return b->user; }
    b->next = head; if (head) head->prev = b; head = b;
    live[id]++; livebytes[id] += n;
    unlock();
    return b->user;
}
static void really_free(blk *b)
{
    if (b->map) munmap(b->map, b->maplen);
    else __libc_free(b->user - RZ);
    __libc_free(b);
}
static void check_dead(blk *b)
{
    if (b->map) return;
    for (size_t i = 0; i < b->size; i++)
        if ((unsigned char)b->user[i] != 0xDD) { err("write after free", b); return; }
    check_rz(b);
}
static void tfree(blk *b)
{
    lock();
    if (b->freed) { err("freed twice", b); unlock(); return; }
    check_rz(b);
    b->freed = 1;
    live[b->id]--; livebytes[b->id] -= b->size;
    if (b->prev) b->prev->next = b->next; else head = b->next;
    if (b->next) b->next->prev = b->prev;
    if (b->map) mprotect(b->map, b->maplen, PROT_NONE);
    else memset(b->user, 0xDD, b->size);
    if (b->id == ID_NP || nq > 20000) {       /* arrays: no quarantine */
        hdel(b); unlock(); really_free(b); return;
    }
    b->prev = 0; b->next = qhead; qhead = b; nq++;
    unlock();
}
static int whose(void *ra)
{
    uintptr_t a = (uintptr_t)ra;
    for (int i = 0; i < nranges; i++)
        if (a >= ranges[i].lo && a < ranges[i].hi) return ranges[i].id;
    return -1;
}

EXPORT void *malloc(size_t n)
{
    if (on) { int id = whose(__builtin_return_address(0)); if (id >= 0) return talloc(id, n, 0); }
    return __libc_malloc(n);
}
EXPORT void *calloc(size_t a, size_t b)
{
    if (on) {
        int id = whose(__builtin_return_address(0));
        if (id >= 0) {
            size_t n;
            if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
            return talloc(id, n, 1);
        }
    }
    return __libc_calloc(a, b);
}
EXPORT void free(void *p)
{
    if (!p) return;
    if (htab) { blk *b = hfind(p); if (b) { tfree(b); return; } }
    __libc_free(p);
}
EXPORT void *realloc(void *p, size_t n)
{
    blk *b = p && htab ? hfind(p) : 0;
    int id = on ? whose(__builtin_return_address(0)) : -1;
    if (b) {
        void *q = talloc(b->id, n, 0);
        if (!q) return 0;
        memcpy(q, p, n < b->size ? n : b->size);
        tfree(b);
        return q;
    }
    if (id >= 0 && !p) return talloc(id, n, 0);
    return __libc_realloc(p, n);
}

EXPORT void *sim_np_malloc(size_t n) { return on ? talloc(ID_NP, n, 0) : __libc_malloc(n); }
EXPORT void *sim_np_calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return 0;
    return on ? talloc(ID_NP, n, 1) : __libc_calloc(a, b);
}
EXPORT void *sim_np_realloc(void *p, size_t n)
{
    blk *b = p && htab ? hfind(p) : 0;
    if (!b) return p || !on ? __libc_realloc(p, n) : talloc(ID_NP, n, 0);
    void *q = talloc(ID_NP, n, 0);
    if (!q) return 0;
    memcpy(q, p, n < b->size ? n : b->size);
    tfree(b);
    return q;
}
EXPORT void sim_np_free(void *p) { free(p); }

EXPORT void sim_range(unsigned long lo, unsigned long hi, int id)
{
    if (nranges < 16) { ranges[nranges].lo = lo; ranges[nranges].hi = hi; ranges[nranges++].id = id; }
}
EXPORT void sim_alloc_mode(int enable, int mode, int poison) { on = enable; g_mode = mode; g_poison = poison; }
EXPORT void sim_fail(int id, long k, int persist) { fail_k[id] = k; fail_persist[id] = persist; }
EXPORT void sim_fail_clear(void) { for (int i = 0; i < NID; i++) fail_k[i] = fail_persist[i] = 0; }
EXPORT long sim_live(int id) { return live[id]; }
EXPORT long sim_livebytes(int id) { return livebytes[id]; }
EXPORT long sim_total(int id) { return total[id]; }
EXPORT long sim_req(int id) { return req[id]; }
EXPORT void sim_req_reset(void) { for (int i = 0; i < NID; i++) req[i] = 0; }
EXPORT long sim_fired(int id) { return fired[id]; }
EXPORT long sim_fired_me(void) { return mine_fired[0] + mine_fired[1] + mine_fired[2]; }
/* checks every live and quarantined block; returns a description or "" */
EXPORT const char *sim_check(void)
{
    lock();
    for (blk *b = head; b; b = b->next) check_rz(b);
    for (blk *b = qhead; b; b = b->next) check_dead(b);
    unlock();
    return nerr ? errbuf : "";
}
EXPORT void sim_err_reset(void) { nerr = 0; errbuf[0] = 0; }
EXPORT void sim_quarantine_drop(void)
{
    lock();
    while (qhead) { blk *b = qhead; qhead = b->next; hdel(b); really_free(b); nq--; }
    unlock();
}

/* -------------------------------------------------------------- storage */
enum { SC_OPEN, SC_READ, SC_WRITE, SC_CLOSE, SC_FSTAT, SC_SEEK, SC_SYNC, SC_TRUNC, SC_RENAME, SC_UNLINK, NSC };
enum { A_ERRNO, A_SHORT, A_KILL, A_KILL_PARTIAL };
typedef struct { int sc; long k; int act; long arg; int persist; } fault;
#define MAXF 32
static __thread fault plan[MAXF];
static __thread int nplan;
static __thread long cnt[NSC];
static __thread long budget = -1;     /* bytes that may still be written; then ENOSPC */
static __thread long killbytes = -1;  /* bytes after which the process dies */
static __thread uint64_t chunk;       /* nonzero: random short reads and writes */
static __thread long chunk_max;
static __thread int blksize;
static long io_fired[NSC][4];
static long n_enospc, n_chunk_r, n_chunk_w, n_calls[NSC];
static char prefix[512];
static int plen;
#define MAXFD 4096
static unsigned char tracked[MAXFD];
static char *owner[MAXFD];
static __thread char me;              /* its address names the thread */
static int nopen;
static __thread long hard[NSC];       /* failures injected into this thread */
static __thread int hooked;
static void (*hook)(int);
EXPORT void sim_io_hook(void (*f)(int)) { hook = f; }
EXPORT void sim_io_hooked(int on) { hooked = on; }
EXPORT long sim_io_hard(int sc) { return hard[sc]; }
EXPORT int sim_io_open_me(void)
{
    int n = 0;
    for (int i = 0; i < MAXFD; i++) if (tracked[i] && owner[i] == &me) n++;
    return n;
}
/* descriptors opened and not used since: an interrupt came before anyone could take charge */
EXPORT int sim_io_bare_me(void)
{
    int n = 0;
    for (int i = 0; i < MAXFD; i++) if (tracked[i] == 1 && owner[i] == &me) n++;
    return n;
}
#define HOOK(sc) do { if (hooked && hook) hook(sc); } while (0)

EXPORT void sim_io_prefix(const char *p) { strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); }
EXPORT void sim_io_fault(int sc, long k, int act, long arg, int persist)
{
    if (nplan < MAXF) { fault f = { sc, k, act, arg, persist }; plan[nplan++] = f; }
}
EXPORT void sim_io_budget(long b) { budget = b; }
EXPORT void sim_io_killbytes(long b) { killbytes = b; }
EXPORT void sim_io_chunk(unsigned long seed, long max) { chunk = seed; chunk_max = max; }
EXPORT void sim_io_blksize(int b) { blksize = b; }
EXPORT void sim_io_clear(void)
{
    nplan = 0; budget = killbytes = -1; chunk = 0; blksize = 0;
    memset(cnt, 0, sizeof cnt);
    memset(hard, 0, sizeof hard);
}
EXPORT int sim_io_open(void) { return nopen; }
EXPORT long sim_io_count(int sc) { return cnt[sc]; }
EXPORT long sim_io_calls(int sc) { return n_calls[sc]; }
EXPORT long sim_io_fired(int sc, int act) { return io_fired[sc][act]; }
EXPORT long sim_io_stat(int w) { return w == 0 ? n_enospc : w == 1 ? n_chunk_r : n_chunk_w; }

static int mine(const char *path)
{
    if (!plen || !path || !*path) return 0;
    if (path[0] == '/') return !strncmp(path, prefix, plen);
    char cwd[512];
    if (syscall(SYS_getcwd, cwd, sizeof cwd) <= 0) return 0;
    int n = strlen(cwd);
    return n + 1 == plen && !strncmp(cwd, prefix, n);
}
static int mfd(int fd) { return plen && fd >= 0 && fd < MAXFD && tracked[fd]; }
static int use(int fd)                /* ... and from now on more than a bare descriptor */
{
    if (!mfd(fd)) return 0;
    tracked[fd] = 2;
    return 1;
}
static fault *hit(int sc)
{
    cnt[sc]++; n_calls[sc]++;
    for (int i = 0; i < nplan; i++)
        if (plan[i].sc == sc && (plan[i].k == cnt[sc] || (plan[i].persist && cnt[sc] >= plan[i].k))) {
            io_fired[sc][plan[i].act]++;
            return &plan[i];
        }
    return 0;
}
static void die(void) { syscall(SYS_exit_group, 77); }
static uint64_t rnd(void)
{
    chunk ^= chunk << 13; chunk ^= chunk >> 7; chunk ^= chunk << 17;
    return chunk;
}
/* applies simple faults; returns 1 if the call must fail with errno set */
static int simple(int sc)
{
    fault *f = hit(sc);
    if (!f) return 0;
    if (f->act == A_ERRNO) { if (f->arg != EINTR) hard[sc]++; errno = f->arg; return 1; }
    if (f->act == A_KILL || f->act == A_KILL_PARTIAL) die();
    return 0;
}
static int do_open(int dfd, const char *path, int flags, int mode)
{
    int m = mine(path);
    if (m) HOOK(SC_OPEN);
    if (m && simple(SC_OPEN)) return -1;
    int fd = syscall(SYS_openat, dfd, path, flags, mode);
    if (m && fd >= 0 && fd < MAXFD) { tracked[fd] = 1; owner[fd] = &me; nopen++; }
    return fd;
}
#define MODE() int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
EXPORT int open(const char *path, int flags, ...) { MODE(); return do_open(AT_FDCWD, path, flags, mode); }
EXPORT int open64(const char *path, int flags, ...) { MODE(); return do_open(AT_FDCWD, path, flags, mode); }
EXPORT int openat(int d, const char *path, int flags, ...) { MODE(); return do_open(d, path, flags, mode); }
EXPORT int openat64(int d, const char *path, int flags, ...) { MODE(); return do_open(d, path, flags, mode); }
EXPORT int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

EXPORT ssize_t read(int fd, void *buf, size_t n)
{
    if (use(fd)) {
        HOOK(SC_READ);
        fault *f = hit(SC_READ);
        if (f) {
            if (f->act == A_ERRNO) { if (f->arg != EINTR) hard[SC_READ]++; errno = f->arg; return -1; }
            if (f->act == A_SHORT && (size_t)f->arg < n && f->arg > 0) n = f->arg;
            if (f->act == A_KILL || f->act == A_KILL_PARTIAL) die();
        }
        if (chunk && n > 1) {
            size_t c = 1 + rnd() % (uint64_t)chunk_max;
            if (c < n) { n = c; n_chunk_r++; }
        }
    }
    return syscall(SYS_read, fd, buf, n);
}
static ssize_t do_write(int fd, const void *buf, size_t n)
{
    HOOK(SC_WRITE);
    fault *f = hit(SC_WRITE);
    if (f) {
        if (f->act == A_ERRNO) { if (f->arg != EINTR) hard[SC_WRITE]++; errno = f->arg; return -1; }
        if (f->act == A_SHORT && (size_t)f->arg < n && f->arg > 0) n = f->arg;
        if (f->act == A_KILL) die();
        if (f->act == A_KILL_PARTIAL) {
            syscall(SYS_write, fd, buf, (size_t)f->arg < n ? (size_t)f->arg : n);
            die();
        }
    }
    if (chunk && n > 1) {
        size_t c = 1 + rnd() % (uint64_t)chunk_max;
        if (c < n) { n = c; n_chunk_w++; }
    }
    if (budget >= 0) {
        if (budget == 0 && n) { n_enospc++; hard[SC_WRITE]++; errno = ENOSPC; return -1; }
        if ((size_t)budget < n) n = budget;
    }
    if (killbytes >= 0 && (size_t)killbytes <= n) {
        if (killbytes) syscall(SYS_write, fd, buf, killbytes);
        die();
    }
    ssize_t r = syscall(SYS_write, fd, buf, n);
    if (r > 0) {
        if (budget >= 0) budget -= r;
        if (killbytes >= 0) killbytes -= r;
    }
    return r;
}
EXPORT ssize_t write(int fd, const void *buf, size_t n)
{
    if (use(fd)) return do_write(fd, buf, n);
    return syscall(SYS_write, fd, buf, n);
}
EXPORT ssize_t pwrite(int fd, const void *buf, size_t n, off_t o)
{
    if (use(fd) && simple(SC_WRITE)) return -1;
    return syscall(SYS_pwrite64, fd, buf, n, o);
}
EXPORT ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) { return pwrite(fd, buf, n, o); }
EXPORT ssize_t pread(int fd, void *buf, size_t n, off_t o)
{
    if (use(fd) && simple(SC_READ)) return -1;
    return syscall(SYS_pread64, fd, buf, n, o);
}
EXPORT ssize_t pread64(int fd, void *buf, size_t n, off_t o) { return pread(fd, buf, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (use(fd)) {
        for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return syscall(SYS_writev, fd, v, c);
}
EXPORT int close(int fd)
{
    if (mfd(fd)) {
        HOOK(SC_CLOSE);
        int bad = simple(SC_CLOSE), e = errno;
        tracked[fd] = 0; nopen--;
        int r = syscall(SYS_close, fd);
        if (bad) { errno = e; return -1; }
        return r;
    }
    return syscall(SYS_close, fd);
}
EXPORT int fstat(int fd, struct stat *st)
{
    if (use(fd) && simple(SC_FSTAT)) return -1;
    int r = syscall(SYS_fstat, fd, st);
    if (!r && mfd(fd) && blksize) st->st_blksize = blksize;
    return r;
}
EXPORT int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
EXPORT off_t lseek(int fd, off_t o, int w)
{
    if (use(fd) && simple(SC_SEEK)) return -1;
    return syscall(SYS_lseek, fd, o, w);
}
EXPORT off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
EXPORT int fsync(int fd) { if (mfd(fd)) { if (simple(SC_SYNC)) return -1; return 0; } return syscall(SYS_fsync, fd); }
EXPORT int fdatasync(int fd) { if (mfd(fd)) { if (simple(SC_SYNC)) return -1; return 0; } return syscall(SYS_fdatasync, fd); }
EXPORT int ftruncate(int fd, off_t n) { if (use(fd) && simple(SC_TRUNC)) return -1; return syscall(SYS_ftruncate, fd, n); }
EXPORT int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
EXPORT int rename(const char *a, const char *b)
{
    if ((mine(a) || mine(b)) && simple(SC_RENAME)) return -1;
    return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
}
EXPORT int renameat(int d, const char *a, int e, const char *b)
{
    if ((mine(a) || mine(b)) && simple(SC_RENAME)) return -1;
    return syscall(SYS_renameat2, d, a, e, b, 0);
}
EXPORT int unlink(const char *a)
{
    if (mine(a) && simple(SC_UNLINK)) return -1;
    return syscall(SYS_unlinkat, AT_FDCWD, a, 0);
}
EXPORT int unlinkat(int d, const char *a, int fl)
{
    if (mine(a) && simple(SC_UNLINK)) return -1;
    return syscall(SYS_unlinkat, d, a, fl);
}
