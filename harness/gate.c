/* Stands between LazyFS and the file system below it (LD_PRELOAD): lets chosen calls on files under GATE_ROOT fail, fall
 * short, wait, or be the last thing that LazyFS does.  Rules are in the file GATE_CTL, shared with the harness.
 * With noise, threads are held up for a moment at locks and backing calls, by a seeded generator. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN = 1, PREAD = 2, PWRITE = 4, TRUNC = 8, RENAME = 16, LINK = 32, UNLINK = 64, SYMLINK = 128, MKDIR = 256, RMDIR = 512,
       TIMES = 1024, SYNC = 2048, CREATE = 4096, CHMOD = 8192, LSTAT = 16384, LOCK = 32768 };
enum { NONE, ERROR, SHORT, BLOCK, KILL, DELAY, KILLPART };

struct rule {
    _Atomic int active, skip, count;  /* after `skip` calls that match, the next `count` ones (-1: all) */
    int mask, action, arg;
    _Atomic int fired, release;
    char path[224];
};
struct ctl {
    _Atomic int magic, noise, seed, calls;
    struct rule r[8];
};

static struct ctl* C;
static char root[PATH_MAX];
static size_t rootlen;

static void __attribute__((constructor)) start (void) {
    const char *p = getenv ("GATE_CTL"), *r = getenv ("GATE_ROOT");
    if (!p || !r)
        return;
    int fd = syscall (SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC);
    if (fd < 0)
        return;
    void* m = mmap (0, sizeof (struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close (fd);
    if (m == MAP_FAILED)
        return;
    snprintf (root, sizeof root, "%s", r);
    rootlen = strlen (root);
    C = m;
}

static __thread uint32_t rnd;
static uint32_t rand32 (void) {
    if (!rnd)
        rnd = (uint32_t)atomic_load (&C->seed) * 2654435761u + (uint32_t)syscall (SYS_gettid) * 40503u + 1;
    rnd ^= rnd << 13;
    rnd ^= rnd >> 17;
    rnd ^= rnd << 5;
    return rnd;
}
static void pause_us (long us) {
    struct timespec t = {us / 1000000, us % 1000000 * 1000};
    syscall (SYS_nanosleep, &t, 0);
}
static void noise (int where) {
    int n = C ? atomic_load_explicit (&C->noise, memory_order_relaxed) : 0;
    if (!n)
        return;
    uint32_t x = rand32 ();
    if (x % 1000 < (uint32_t)n) {
        if (x >> 10 & 3)
            pause_us (20 + (x >> 12) % (where ? 1500 : 400));
        else
            sched_yield ();
    }
}

/* the rule that this call falls under */
static struct rule* match (int op, const char* path, const char* path2) {
    if (!C)
        return 0;
    atomic_fetch_add (&C->calls, 1);
    for (int i = 0; i < 8; i++) {
        struct rule* r = &C->r[i];
        if (!atomic_load (&r->active) || !(r->mask & op))
            continue;
        if (r->path[0] && !strstr (path, r->path) && !(path2 && strstr (path2, r->path)))
            continue;
        if (atomic_load (&r->skip) > 0 && atomic_fetch_sub (&r->skip, 1) > 0)
            continue;
        int c = atomic_load (&r->count);
        if (c == 0 || (c > 0 && atomic_fetch_sub (&r->count, 1) <= 0))
            continue;
        atomic_fetch_add (&r->fired, 1);
        return r;
    }
    return 0;
}
static int under (const char* p) { return p && !strncmp (p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]); }

static struct rule* by_path (int op, const char* a, const char* b) {
    if (!C || (!under (a) && !under (b)))
        return 0;
    noise (1);
    return match (op, under (a) ? a : "", under (b) ? b : 0);
}
static struct rule* by_fd (int op, int fd) {
    if (!C)
        return 0;
    int any = 0;
    for (int i = 0; i < 8; i++)
        any |= atomic_load_explicit (&C->r[i].active, memory_order_relaxed);
    if (!any) {
        noise (1);
        return 0;
    }
    char l[64], p[PATH_MAX];
    snprintf (l, sizeof l, "/proc/self/fd/%d", fd);
    int e = errno;
    ssize_t n = readlink (l, p, sizeof p - 1);
    errno = e;
    if (n < 0)
        return 0;
    p[n] = 0;
    if (!under (p))
        return 0;
    return match (op, p, 0);
}
/* 1: the call fails; 0: it goes on */
static int before (struct rule* r) {
    if (!r)
        return 0;
    if (r->action == ERROR) {
        errno = r->arg;
        return 1;
    }
    if (r->action == KILL)
        for (;;)
            syscall (SYS_kill, getpid (), SIGKILL);
    if (r->action == DELAY)
        pause_us (r->arg);
    if (r->action == BLOCK)
        for (int i = 0; i < 150000 && !atomic_load (&r->release); i++)
            pause_us (200);
    return 0;
}
static void dead (void) {
    for (;;)
        syscall (SYS_kill, getpid (), SIGKILL);
}
#define REAL(ret, name, args) \
    static ret (*real) args; \
    if (!real) \
        real = dlsym (RTLD_NEXT, name);

/* ---- data */
static ssize_t do_pwrite (int fd, const void* b, size_t n, off_t o) {
    struct rule* r = by_fd (PWRITE, fd);
    if (before (r))
        return -1;
    if (r && (r->action == SHORT || r->action == KILLPART)) {
        size_t k = n > (size_t)r->arg ? (size_t)r->arg : n ? n - 1 : 0;
        ssize_t x = k ? syscall (SYS_pwrite64, fd, b, k, o) : 0;
        if (r->action == KILLPART)
            dead ();
        return x;
    }
    return syscall (SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite (int fd, const void* b, size_t n, off_t o) { return do_pwrite (fd, b, n, o); }
ssize_t pwrite64 (int fd, const void* b, size_t n, off_t o) { return do_pwrite (fd, b, n, o); }

static ssize_t do_pwritev (int fd, const struct iovec* v, int c, off_t o) {
    struct rule* r = by_fd (PWRITE, fd);
    if (before (r))
        return -1;
    if (r && (r->action == SHORT || r->action == KILLPART)) {
        size_t all = 0, k, done = 0;
        for (int i = 0; i < c; i++)
            all += v[i].iov_len;
        k = all > (size_t)r->arg ? (size_t)r->arg : all ? all - 1 : 0;
        for (int i = 0; i < c && done < k; i++) {
            size_t n = v[i].iov_len < k - done ? v[i].iov_len : k - done;
            if (n && syscall (SYS_pwrite64, fd, v[i].iov_base, n, o + done) != (ssize_t)n)
                return -1;
            done += n;
        }
        if (r->action == KILLPART)
            dead ();
        return k;
    }
    return syscall (SYS_pwritev, fd, v, c, o, 0);
}
ssize_t pwritev (int fd, const struct iovec* v, int c, off_t o) { return do_pwritev (fd, v, c, o); }
ssize_t pwritev64 (int fd, const struct iovec* v, int c, off_t o) { return do_pwritev (fd, v, c, o); }

ssize_t write (int fd, const void* b, size_t n) {
    struct rule* r = by_fd (PWRITE, fd);
    if (before (r))
        return -1;
    if (r && (r->action == SHORT || r->action == KILLPART)) {
        size_t k = n > (size_t)r->arg ? (size_t)r->arg : n ? n - 1 : 0;
        ssize_t x = k ? syscall (SYS_write, fd, b, k) : 0;
        if (r->action == KILLPART)
            dead ();
        return x;
    }
    REAL (ssize_t, "write", (int, const void*, size_t))
    return real (fd, b, n);
}
static ssize_t do_pread (int fd, void* b, size_t n, off_t o) {
    if (before (by_fd (PREAD, fd)))
        return -1;
    return syscall (SYS_pread64, fd, b, n, o);
}
ssize_t pread (int fd, void* b, size_t n, off_t o) { return do_pread (fd, b, n, o); }
ssize_t pread64 (int fd, void* b, size_t n, off_t o) { return do_pread (fd, b, n, o); }

static int do_ftruncate (int fd, off_t n) {
    if (before (by_fd (TRUNC, fd)))
        return -1;
    return syscall (SYS_ftruncate, fd, n);
}
int ftruncate (int fd, off_t n) { return do_ftruncate (fd, n); }
int ftruncate64 (int fd, off_t n) { return do_ftruncate (fd, n); }
static int do_truncate (const char* p, off_t n) {
    if (before (by_path (TRUNC, p, 0)))
        return -1;
    return syscall (SYS_truncate, p, n);
}
int truncate (const char* p, off_t n) { return do_truncate (p, n); }
int truncate64 (const char* p, off_t n) { return do_truncate (p, n); }

int fsync (int fd) {
    if (before (by_fd (SYNC, fd)))
        return -1;
    REAL (int, "fsync", (int))
    return real (fd);
}
int fdatasync (int fd) {
    if (before (by_fd (SYNC, fd)))
        return -1;
    REAL (int, "fdatasync", (int))
    return real (fd);
}

/* ---- names */
static int do_open (int dir, const char* p, int fl, mode_t m) {
    if (before (by_path (fl & O_CREAT ? CREATE : OPEN, p, 0)))
        return -1;
    return syscall (SYS_openat, dir, p, fl, m);
}
#define MODE \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { \
        va_list a; \
        va_start (a, fl); \
        m = va_arg (a, mode_t); \
        va_end (a); \
    }
int open (const char* p, int fl, ...) { MODE return do_open (AT_FDCWD, p, fl, m); }
int open64 (const char* p, int fl, ...) { MODE return do_open (AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat (int d, const char* p, int fl, ...) { MODE return do_open (d, p, fl, m); }
int openat64 (int d, const char* p, int fl, ...) { MODE return do_open (d, p, fl | O_LARGEFILE, m); }

int rename (const char* a, const char* b) {
    if (before (by_path (RENAME, a, b)))
        return -1;
    return syscall (SYS_rename, a, b);
}
int renameat2 (int da, const char* a, int db, const char* b, unsigned f) {
    if (before (by_path (RENAME, a, b)))
        return -1;
    return syscall (SYS_renameat2, da, a, db, b, f);
}
int link (const char* a, const char* b) {
    if (before (by_path (LINK, a, b)))
        return -1;
    return syscall (SYS_link, a, b);
}
int linkat (int da, const char* a, int db, const char* b, int f) {
    if (before (by_path (LINK, a, b)))
        return -1;
    return syscall (SYS_linkat, da, a, db, b, f);
}
int unlink (const char* p) {
    if (before (by_path (UNLINK, p, 0)))
        return -1;
    return syscall (SYS_unlink, p);
}
int unlinkat (int d, const char* p, int f) {
    if (before (by_path (f & AT_REMOVEDIR ? RMDIR : UNLINK, p, 0)))
        return -1;
    return syscall (SYS_unlinkat, d, p, f);
}
int symlink (const char* a, const char* b) {
    if (before (by_path (SYMLINK, b, 0)))
        return -1;
    return syscall (SYS_symlink, a, b);
}
int mkdir (const char* p, mode_t m) {
    if (before (by_path (MKDIR, p, 0)))
        return -1;
    return syscall (SYS_mkdir, p, m);
}
int rmdir (const char* p) {
    if (before (by_path (RMDIR, p, 0)))
        return -1;
    return syscall (SYS_rmdir, p);
}
int chmod (const char* p, mode_t m) {
    if (before (by_path (CHMOD, p, 0)))
        return -1;
    return syscall (SYS_chmod, p, m);
}
int utimensat (int d, const char* p, const struct timespec t[2], int f) {
    if (before (by_path (TIMES, p, 0)))
        return -1;
    return syscall (SYS_utimensat, d, p, t, f);
}

/* ---- schedules */
static void gap (void) {
    noise (0);
    if (!C)
        return;
    for (int i = 0; i < 8; i++)
        if ((C->r[i].mask & LOCK) && atomic_load_explicit (&C->r[i].active, memory_order_relaxed)) {
            before (match (LOCK, "", 0));
            return;
        }
}
int pthread_mutex_lock (pthread_mutex_t* m) {
    REAL (int, "pthread_mutex_lock", (pthread_mutex_t*))
    gap ();
    return real (m);
}
int pthread_rwlock_wrlock (pthread_rwlock_t* m) {
    REAL (int, "pthread_rwlock_wrlock", (pthread_rwlock_t*))
    gap ();
    return real (m);
}
int pthread_rwlock_rdlock (pthread_rwlock_t* m) {
    REAL (int, "pthread_rwlock_rdlock", (pthread_rwlock_t*))
    gap ();
    return real (m);
}
int pthread_rwlock_unlock (pthread_rwlock_t* m) {
    REAL (int, "pthread_rwlock_unlock", (pthread_rwlock_t*))
    int r = real (m);
    gap ();
    return r;
}
int pthread_mutex_unlock (pthread_mutex_t* m) {
    REAL (int, "pthread_mutex_unlock", (pthread_mutex_t*))
    int r = real (m);
    gap ();
    return r;
}
