/* simdisk: the storage seam of the simulator.
 *
 * Preloaded under the real Python / h5py / HDF5 stack.  Once armed (sd_arm),
 * every system call that touches a path under one scratch directory becomes a
 * numbered event of the simulated disk: it is appended to a log and looked up
 * in the fault plan, which may fail it, shorten it, tear it or crash the
 * process in the middle of it.  Anything outside the scratch directory, and
 * everything before sd_arm, goes straight through.
 *
 * plan:  "<index>:<kind>:<arg>;..."   kinds
 *    E  fail with errno=arg, no effect
 *    P  fail with errno=arg, and every later event of the same class too
 *    S  short transfer: only arg bytes (write / read)
 *    C  crash: apply arg bytes of the write (arg<0: all of it), then _exit(137)
 *    X  crash before the event has any effect
 *    Z  (read only) flip a bit of the data returned (arg = bit position)
 *  "q:<bytes>" caps the total bytes all files may hold: a full disk.
 *
 * With sd_sched the process also hands control to the simulator before every
 * event and goes on only when told to: several processes sharing the disk are
 * then interleaved call by call.  Waiting for a file lock becomes handing over
 * control until the lock is free.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXPLAN 1024
#define LOGCAP (1 << 20)

static int armed = 0;
static char prefix[PATH_MAX];
static size_t prefix_len = 0;
static unsigned char tracked[MAXFD];
static char fdpath[MAXFD][256];
static long counter = 0;
static long fired[128];
struct fault { long idx; char kind; long arg; };
static struct fault plan[MAXPLAN];
static int nplan = 0;
static long quota = -1;
static int persist_errno[128]; /* by event class letter */
static char *logbuf = 0;
static size_t loglen = 0;
static int sched_out = -1, sched_in = -1; /* to and from the simulator */

static void *real(const char *name) {
    void *p = dlsym(RTLD_NEXT, name);
    return p;
}
#define REAL(ret, name, ...) \
    static ret (*r_##name)(__VA_ARGS__) = 0; \
    if (!r_##name) r_##name = real(#name)

static void logf_(const char *fmt, ...) {
    if (!logbuf) return;
    va_list ap;
    va_start(ap, fmt);
    if (loglen + 512 < LOGCAP) {
        int n = vsnprintf(logbuf + loglen, 512, fmt, ap);
        if (n > 511) n = 511;
        if (n > 0) loglen += n;
    }
    va_end(ap);
}

long sd_arm(const char *pfx, const char *spec) {
    memset(tracked, 0, sizeof tracked);
    memset(persist_errno, 0, sizeof persist_errno);
    memset(fired, 0, sizeof fired);
    counter = 0; nplan = 0; quota = -1; loglen = 0;
    if (!logbuf) logbuf = malloc(LOGCAP);
    logbuf[0] = 0;
    if (!realpath(pfx, prefix)) return -1;
    prefix_len = strlen(prefix);
    const char *s = spec;
    while (s && *s) {
        if (*s == 'q') { quota = strtol(s + 2, (char **)&s, 10); }
        else {
            char *e;
            if (nplan >= MAXPLAN) return -2;
            plan[nplan].idx = strtol(s, &e, 10);
            if (*e != ':') return -3;
            plan[nplan].kind = e[1];
            plan[nplan].arg = strtol(e + 3, &e, 10);
            nplan++;
            s = e;
        }
        if (*s == ';') s++;
    }
    armed = 1;
    return 0;
}
long sd_disarm(void) { armed = 0; return counter; }
long sd_count(void) { return counter; }
long sd_fired(int kind) { return fired[kind & 127]; }
const char *sd_log(void) { if (logbuf) logbuf[loglen] = 0; return logbuf ? logbuf : ""; }

/* Hands over control; the simulator decides when this process goes on. */
static void yield_(char what) {
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, read, int, void *, size_t);
    char c;
    int e = errno;
    if (sched_out < 0) return;
    if (r_write(sched_out, &what, 1) != 1 || r_read(sched_in, &c, 1) != 1) _exit(98);
    errno = e;
}
void sd_sched(int out, int in) { sched_out = out; sched_in = in; }

static int under(const char *path, char *out) {
    char buf[PATH_MAX * 2];
    if (!armed || !path) return 0;
    if (path[0] == '/') snprintf(buf, sizeof buf, "%s", path);
    else {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        while (path[0] == '.' && path[1] == '/') path += 2;
        snprintf(buf, sizeof buf, "%s/%s", cwd, path);
    }
    if (strncmp(buf, prefix, prefix_len) || buf[prefix_len] != '/') return 0;
    snprintf(out, 256, "%s", buf + prefix_len + 1);
    return 1;
}

/* event classes: o open, w write, r read, t truncate, c close, n rename,
 * u unlink, y fsync, m mkdir */
static struct fault *event(char cls, const char *path, long off, long len) {
    yield_('e');
    long me = counter++;
    struct fault *f = 0;
    for (int i = 0; i < nplan; i++)
        if (plan[i].idx == me) { f = &plan[i]; break; }
    logf_("%ld %c %s %ld %ld%s%c\n", me, cls, path, off, len, f ? " FAULT " : " ", f ? f->kind : '-');
    if (f) fired[(int)f->kind & 127]++;
    if (f && f->kind == 'P') persist_errno[(int)cls] = (int)f->arg;
    return f;
}

static long usage(void);

#define CRASH() do { _exit(137); } while (0)

static int pre(struct fault *f, char cls, int *err) {
    if (f) {
        if (f->kind == 'X') CRASH();
        if (f->kind == 'E' || f->kind == 'P') { *err = (int)f->arg; return 1; }
    }
    if (persist_errno[(int)cls]) { *err = persist_errno[(int)cls]; return 1; }
    return 0;
}

#include <dirent.h>
static long usage_dir(const char *d, int depth) {
    long tot = 0;
    if (depth > 4) return 0;
    DIR *dp = opendir(d);
    if (!dp) return 0;
    struct dirent *de;
    while ((de = readdir(dp))) {
        if (de->d_name[0] == '.' && (!de->d_name[1] || (de->d_name[1] == '.' && !de->d_name[2]))) continue;
        char p[PATH_MAX];
        struct stat st;
        snprintf(p, sizeof p, "%s/%s", d, de->d_name);
        if (lstat(p, &st)) continue;
        if (S_ISDIR(st.st_mode)) tot += usage_dir(p, depth + 1);
        else tot += st.st_size;
    }
    closedir(dp);
    return tot;
}
static long usage(void) { return usage_dir(prefix, 0); }

static int do_open(int (*fn)(const char *, int, ...), const char *path, int flags, mode_t mode) {
    char rel[256];
    if (!under(path, rel)) return fn(path, flags, mode);
    struct fault *f = event('o', rel, flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_EXCL), 0);
    int err;
    if (pre(f, 'o', &err)) { errno = err; return -1; }
    int fd = fn(path, flags, mode);
    if (fd >= 0 && fd < MAXFD) { tracked[fd] = 1; snprintf(fdpath[fd], 256, "%s", rel); }
    if (f && f->kind == 'C') CRASH();
    return fd;
}
#define GETMODE() mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { REAL(int, open, const char *, int, ...); GETMODE(); return do_open(r_open, path, flags, mode); }
int open64(const char *path, int flags, ...) { REAL(int, open64, const char *, int, ...); GETMODE(); return do_open(r_open64, path, flags | O_LARGEFILE, mode); }
static int do_openat(int (*fn)(int, const char *, int, ...), int dfd, const char *path, int flags, mode_t mode) {
    char rel[256];
    if ((dfd != AT_FDCWD && path && path[0] != '/') || !under(path, rel)) return fn(dfd, path, flags, mode);
    struct fault *f = event('o', rel, flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_EXCL), 0);
    int err;
    if (pre(f, 'o', &err)) { errno = err; return -1; }
    int fd = fn(dfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) { tracked[fd] = 1; snprintf(fdpath[fd], 256, "%s", rel); }
    if (f && f->kind == 'C') CRASH();
    return fd;
}
int openat(int dfd, const char *path, int flags, ...) { REAL(int, openat, int, const char *, int, ...); GETMODE(); return do_openat(r_openat, dfd, path, flags, mode); }
int openat64(int dfd, const char *path, int flags, ...) { REAL(int, openat64, int, const char *, int, ...); GETMODE(); return do_openat(r_openat64, dfd, path, flags | O_LARGEFILE, mode); }

#define TR(fd) (armed && (fd) >= 0 && (fd) < MAXFD && tracked[fd])

int close(int fd) {
    REAL(int, close, int);
    if (!TR(fd)) { return r_close(fd); }
    struct fault *f = event('c', fdpath[fd], 0, 0);
    int err;
    tracked[fd] = 0;
    if (pre(f, 'c', &err)) { r_close(fd); errno = err; return -1; }
    int rc = r_close(fd);
    if (f && f->kind == 'C') CRASH();
    return rc;
}

int flock(int fd, int op) {
    REAL(int, flock, int, int);
    if (!TR(fd) || sched_out < 0 || (op & LOCK_NB)) return r_flock(fd, op);
    while (1) {
        int rc = r_flock(fd, op | LOCK_NB);
        if (rc == 0 || errno != EWOULDBLOCK) return rc;
        yield_('b');
    }
}
static int do_fcntl(int (*fn)(int, int, ...), int fd, int cmd, void *arg) {
    if (!TR(fd) || sched_out < 0 || (cmd != F_SETLKW && cmd != F_OFD_SETLKW)) return fn(fd, cmd, arg);
    while (1) {
        int rc = fn(fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg);
        if (rc == 0 || (errno != EAGAIN && errno != EACCES)) return rc;
        yield_('b');
    }
}
int fcntl(int fd, int cmd, ...) { REAL(int, fcntl, int, int, ...); va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(r_fcntl, fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { REAL(int, fcntl64, int, int, ...); va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(r_fcntl64, fd, cmd, a); }

/* Positioned or sequential write through one path. */
static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, int positioned) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
    REAL(ssize_t, write, int, const void *, size_t);
    struct fault *f = event('w', fdpath[fd], positioned ? (long)off : -1, (long)n);
    int err;
    size_t m = n;
    if (pre(f, 'w', &err)) { errno = err; return -1; }
    if (f && (f->kind == 'S' || f->kind == 'C') && f->arg >= 0 && (size_t)f->arg < m) m = (size_t)f->arg;
    if (f && f->kind == 'S' && m == 0) m = n ? 1 : 0;
    if (quota >= 0) {
        struct stat st;
        off_t at = positioned ? off : lseek(fd, 0, SEEK_CUR);
        if (!fstat(fd, &st) && at + (off_t)m > st.st_size) {
            long grow = (long)(at + (off_t)m - st.st_size), room = quota - usage();
            if (grow > room) {
                fired['q']++;
                long can = (long)m - (grow - (room > 0 ? room : 0));
                logf_("  full room=%ld\n", room);
                if (can <= 0) { errno = ENOSPC; return -1; }
                m = (size_t)can;
            }
        }
    }
    ssize_t rc = 0;
    if (m > 0 || n == 0) rc = positioned ? r_pwrite64(fd, buf, m, off) : r_write(fd, buf, m);
    if (f && f->kind == 'C') CRASH();
    return rc;
}
ssize_t write(int fd, const void *buf, size_t n) { REAL(ssize_t, write, int, const void *, size_t); return TR(fd) ? do_write(fd, buf, n, 0, 0) : r_write(fd, buf, n); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); return TR(fd) ? do_write(fd, buf, n, off, 1) : r_pwrite(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { REAL(ssize_t, pwrite64, int, const void *, size_t, off_t); return TR(fd) ? do_write(fd, buf, n, off, 1) : r_pwrite64(fd, buf, n, off); }

static ssize_t do_read(int fd, void *buf, size_t n, off_t off, int positioned) {
    REAL(ssize_t, pread64, int, void *, size_t, off_t);
    REAL(ssize_t, read, int, void *, size_t);
    struct fault *f = event('r', fdpath[fd], positioned ? (long)off : -1, (long)n);
    int err;
    size_t m = n;
    if (pre(f, 'r', &err)) { errno = err; return -1; }
    if (f && f->kind == 'S' && n > 0) { m = (f->arg > 0 && (size_t)f->arg < n) ? (size_t)f->arg : 1; }
    ssize_t rc = positioned ? r_pread64(fd, buf, m, off) : r_read(fd, buf, m);
    if (f && f->kind == 'Z' && rc > 0) { long b = f->arg % (rc * 8); if (b < 0) b = 0; ((unsigned char *)buf)[b / 8] ^= (unsigned char)(1 << (b % 8)); }
    if (f && f->kind == 'C') CRASH();
    return rc;
}
ssize_t read(int fd, void *buf, size_t n) { REAL(ssize_t, read, int, void *, size_t); return TR(fd) ? do_read(fd, buf, n, 0, 0) : r_read(fd, buf, n); }
ssize_t pread(int fd, void *buf, size_t n, off_t off) { REAL(ssize_t, pread, int, void *, size_t, off_t); return TR(fd) ? do_read(fd, buf, n, off, 1) : r_pread(fd, buf, n, off); }
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { REAL(ssize_t, pread64, int, void *, size_t, off_t); return TR(fd) ? do_read(fd, buf, n, off, 1) : r_pread64(fd, buf, n, off); }

static int do_trunc(int fd, off_t len) {
    REAL(int, ftruncate64, int, off_t);
    struct fault *f = event('t', fdpath[fd], (long)len, 0);
    int err;
    if (pre(f, 't', &err)) { errno = err; return -1; }
    int rc = r_ftruncate64(fd, len);
    if (f && f->kind == 'C') CRASH();
    return rc;
}
int ftruncate(int fd, off_t len) { REAL(int, ftruncate, int, off_t); return TR(fd) ? do_trunc(fd, len) : r_ftruncate(fd, len); }
int ftruncate64(int fd, off_t len) { REAL(int, ftruncate64, int, off_t); return TR(fd) ? do_trunc(fd, len) : r_ftruncate64(fd, len); }

int fsync(int fd) { REAL(int, fsync, int); if (!TR(fd)) return r_fsync(fd); int err; struct fault *f = event('y', fdpath[fd], 0, 0); if (pre(f, 'y', &err)) { errno = err; return -1; } if (f && f->kind == 'C') CRASH(); return 0; }
int fdatasync(int fd) { REAL(int, fdatasync, int); if (!TR(fd)) return r_fdatasync(fd); int err; struct fault *f = event('y', fdpath[fd], 0, 0); if (pre(f, 'y', &err)) { errno = err; return -1; } if (f && f->kind == 'C') CRASH(); return 0; }

int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    char ra[256], rb[256]; int ua = under(a, ra), ub = under(b, rb);
    if (!ua && !ub) return r_rename(a, b);
    int err; struct fault *f = event('n', ub ? rb : ra, 0, 0);
    if (pre(f, 'n', &err)) { errno = err; return -1; }
    int rc = r_rename(a, b);
    if (f && f->kind == 'C') CRASH();
    return rc;
}
int renameat(int da, const char *a, int db, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    char rb[256];
    if (da != AT_FDCWD || db != AT_FDCWD || !under(b, rb)) return r_renameat(da, a, db, b);
    int err; struct fault *f = event('n', rb, 0, 0);
    if (pre(f, 'n', &err)) { errno = err; return -1; }
    int rc = r_renameat(da, a, db, b);
    if (f && f->kind == 'C') CRASH();
    return rc;
}
int unlinkat(int d, const char *a, int flags) {
    REAL(int, unlinkat, int, const char *, int);
    char ra[256];
    if (d != AT_FDCWD || !under(a, ra)) return r_unlinkat(d, a, flags);
    int err; struct fault *f = event('u', ra, 0, 0);
    if (pre(f, 'u', &err)) { errno = err; return -1; }
    int rc = r_unlinkat(d, a, flags);
    if (f && f->kind == 'C') CRASH();
    return rc;
}
int link(const char *a, const char *b) {
    REAL(int, link, const char *, const char *);
    char rb[256];
    if (!under(b, rb)) return r_link(a, b);
    int err; struct fault *f = event('l', rb, 0, 0);
    if (pre(f, 'l', &err)) { errno = err; return -1; }
    int rc = r_link(a, b);
    if (f && f->kind == 'C') CRASH();
    return rc;
}
int unlink(const char *a) {
    REAL(int, unlink, const char *);
    char ra[256];
    if (!under(a, ra)) return r_unlink(a);
    int err; struct fault *f = event('u', ra, 0, 0);
    if (pre(f, 'u', &err)) { errno = err; return -1; }
    int rc = r_unlink(a);
    if (f && f->kind == 'C') CRASH();
    return rc;
}
