/* The operating system as the program under test sees it. Preloaded into the command line
 * program; results of calls on the file under test and of writes to standard output follow the
 * script in WHASM_SIM_SCRIPT. Everything that happens is written to WHASM_SIM_LOG.
 *
 * script lines: open E...   errno per open of the file (0: real result)
 *               stat E SIZE errno, or the size to report (-1: real)
 *               seek E      errno of lseek on the file
 *               read K...   per read: >0 at most K bytes, 0 as asked, <0 errno -K
 *               eof N       the file ends after N bytes (-1: where it ends)
 *               write K...  per write to stdout: >0 at most K bytes, 0 as asked, <0 errno -K,
 *                           1000000 accept nothing (result 0)
 *               alloc N     allocations of N bytes and more fail
 *               env N       every variable asked for has a value, the Nth of a few
 *               host S T    entropy, clock, process number and number of processors follow from S;
 *                           T: the standard streams are a terminal
 *
 * Calls that would change files, start processes or reach the network are recorded and refused.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXN 4096
static long opens[MAXN], reads[MAXN], writes[MAXN];
static int n_open, n_read, n_write, i_open, i_read, i_write;
static long stat_err, stat_size = -1, seek_err, eof_at = -1, alloc_from = -1;
static const char *target, *scratch = "";
static int logfd = -1, file_fd = -1;
static long pos;
static int ready;
static uint64_t host;
static int terminal;
static const char *any_env;
extern char **environ;

static void logf_(char what, long a, long b) {
    char s[64];
    int n = 0;
    if (logfd < 0) return;
    s[n++] = what;
    for (int k = 0; k < 2; k++) {
        long v = k ? b : a;
        char t[24];
        int m = 0;
        s[n++] = ' ';
        if (v < 0) { s[n++] = '-'; v = -v; }
        do { t[m++] = '0' + v % 10; v /= 10; } while (v);
        while (m) s[n++] = t[--m];
    }
    s[n++] = '\n';
    syscall(SYS_write, logfd, s, n);
}

static int numbers(const char *p, long *out) {
    int n = 0;
    char *e;
    while (n < MAXN) {
        long v = strtol(p, &e, 10);
        if (e == p) break;
        out[n++] = v;
        p = e;
    }
    return n;
}

static const char *lookup(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}
char *getenv(const char *name) {
    const char *v = lookup(name);
    /* what the runtime itself asks for stays as it is */
    if (!v && ready && any_env && strncmp(name, "RUST_", 5) && strncmp(name, "LD_", 3)) v = any_env;
    return (char *)v;
}

__attribute__((constructor)) static void begin(void) {
    static char text[1 << 16];
    const char *script = getenv("WHASM_SIM_SCRIPT"), *lg = getenv("WHASM_SIM_LOG");
    target = getenv("WHASM_SIM_FILE");
    if (!script || !lg || !target) return;
    if (getenv("WHASM_SIM_DIR")) scratch = getenv("WHASM_SIM_DIR");
    int fd = syscall(SYS_openat, AT_FDCWD, script, O_RDONLY, 0);
    if (fd < 0) return;
    long n = syscall(SYS_read, fd, text, sizeof text - 1);
    syscall(SYS_close, fd);
    if (n < 0) n = 0;
    text[n] = 0;
    for (char *line = text; line && *line;) {
        char *end = strchr(line, '\n');
        if (end) *end++ = 0;
        long two[MAXN];
        if (!strncmp(line, "open ", 5)) n_open = numbers(line + 5, opens);
        else if (!strncmp(line, "read ", 5)) n_read = numbers(line + 5, reads);
        else if (!strncmp(line, "write ", 6)) n_write = numbers(line + 6, writes);
        else if (!strncmp(line, "stat ", 5)) { if (numbers(line + 5, two) == 2) { stat_err = two[0]; stat_size = two[1]; } }
        else if (!strncmp(line, "seek ", 5)) { if (numbers(line + 5, two) == 1) seek_err = two[0]; }
        else if (!strncmp(line, "eof ", 4)) { if (numbers(line + 4, two) == 1) eof_at = two[0]; }
        else if (!strncmp(line, "alloc ", 6)) { if (numbers(line + 6, two) == 1) alloc_from = two[0]; }
        else if (!strncmp(line, "host ", 5)) { if (numbers(line + 5, two) == 2) { host = two[0]; terminal = two[1]; } }
        else if (!strncmp(line, "env ", 4)) {
            static const char *const values[] = { "sub/env", "1", "0", "/nonexistent", "" };
            if (numbers(line + 4, two) == 1 && two[0] >= 0 && two[0] < 5) any_env = values[two[0]];
        }
        line = end;
    }
    int l = syscall(SYS_openat, AT_FDCWD, lg, O_WRONLY | O_APPEND | O_CREAT, 0600);
    logfd = fcntl(l, F_DUPFD_CLOEXEC, 200);
    syscall(SYS_close, l);
    ready = 1;
}

/* std probes statx with null pointers, so a null path is not the file */
static int is_target(const char *path) {
    const char *volatile p = path;
    return ready && p && !strcmp(p, target);
}
static int is_empty(const char *path) {
    const char *volatile p = path;
    return p && !*p;
}

/* where a path leads: 1 below the working directory's parent, 2 system information, 3 elsewhere */
static int place(int dir, const char *p) {
    if (!p || (dir != AT_FDCWD && p[0] != '/')) return 1;
    if (p[0] != '/') return 1;
    if (!strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5) || !strncmp(p, "/dev/", 5)) return 2;
    if (!strncmp(p, scratch, strlen(scratch)) && scratch[0]) return 1;
    return 3;
}
#define CHANGES(flags) (((flags) & O_ACCMODE) != O_RDONLY || ((flags) & (O_CREAT | O_TRUNC)))

static int open_(int dir, const char *p, int flags, int mode) {
    if (is_target(p)) {
        if (CHANGES(flags)) logf_('M', flags & O_ACCMODE, flags & (O_CREAT | O_TRUNC | O_APPEND));
        long e = i_open < n_open ? opens[i_open++] : 0;
        if (e) { logf_('O', 0, e); errno = e; return -1; }
        int fd = syscall(SYS_openat, dir, p, flags, mode);
        logf_('O', fd >= 0, fd < 0 ? errno : 0);
        if (fd >= 0) { file_fd = fd; pos = 0; }
        return fd;
    }
    if (ready) {
        int where = place(dir, p);
        logf_('P', where, CHANGES(flags) != 0);
        /* nothing outside the scratch directory is ever written */
        if (where == 3 && CHANGES(flags)) { errno = EACCES; return -1; }
    }
    return syscall(SYS_openat, dir, p, flags, mode);
}

#define MODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { MODE return open_(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return open_(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return open_(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return open_(d, p, flags, mode); }

DIR *opendir(const char *p) {
    int fd = open_(AT_FDCWD, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
    return fd < 0 ? NULL : fdopendir(fd);
}

int close(int fd) {
    if (ready && fd == file_fd && fd >= 0) { file_fd = -1; }
    return syscall(SYS_close, fd);
}

static ssize_t read_(int fd, void *buf, size_t n) {
    if (ready && fd == 0) logf_('I', n, 0);
    if (!ready || fd != file_fd || fd < 0) return syscall(SYS_read, fd, buf, n);
    long k = i_read < n_read ? reads[i_read++] : 0;
    if (k < 0) { logf_('R', -1, -k); errno = -k; return -1; }
    if (k > 0 && (size_t)k < n) { logf_('K', k, 0); n = k; }
    if (eof_at >= 0 && pos + (long)n > eof_at) { n = eof_at > pos ? eof_at - pos : 0; if (n == 0) { logf_('Z', 0, 0); return 0; } }
    ssize_t r = syscall(SYS_read, fd, buf, n);
    if (r < 0) { logf_('R', -1, errno); return r; }
    pos += r;
    logf_('R', r, 0);
    return r;
}

ssize_t read(int fd, void *buf, size_t n) { return read_(fd, buf, n); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!ready || fd != file_fd) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read_(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
static ssize_t pread_(int fd, void *buf, size_t n, off_t at) {
    if (!ready || fd != file_fd) return syscall(SYS_pread64, fd, buf, n, at);
    long was = pos;
    syscall(SYS_lseek, fd, at, SEEK_SET);
    pos = at;
    ssize_t r = read_(fd, buf, n);
    int e = errno;
    syscall(SYS_lseek, fd, was, SEEK_SET);
    pos = was;
    errno = e;
    return r;
}
ssize_t pread(int fd, void *buf, size_t n, off_t at) { return pread_(fd, buf, n, at); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t at) { return pread_(fd, buf, n, at); }

static off_t seek_(int fd, off_t o, int w) {
    if (ready && fd == file_fd && fd >= 0) {
        if (seek_err) { logf_('L', -1, seek_err); errno = seek_err; return -1; }
        off_t r = syscall(SYS_lseek, fd, o, w);
        if (r >= 0) pos = r;
        return r;
    }
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return seek_(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return seek_(fd, o, w); }

static int stat_fault(int hit) {
    if (!hit || !stat_err) return 0;
    logf_('T', -1, stat_err);
    errno = stat_err;
    return 1;
}
static void size_fault(int hit, void *where, int wide) {
    (void)wide;
    if (!hit || stat_size < 0) return;
    logf_('T', stat_size, 0);
    *(int64_t *)where = stat_size;
}

int statx(int d, const char *restrict p, int flags, unsigned mask, struct statx *restrict s) {
    int hit = ready && ((is_empty(p) && d == file_fd && d >= 0) || is_target(p));
    if (stat_fault(hit)) return -1;
    int r = syscall(SYS_statx, d, p, flags, mask, s);
    if (r == 0) size_fault(hit, &s->stx_size, 1);
    return r;
}
static int fstat_(int fd, struct stat *s) {
    int hit = ready && fd == file_fd && fd >= 0;
    if (stat_fault(hit)) return -1;
    int r = syscall(SYS_fstat, fd, s);
    if (r == 0) size_fault(hit, &s->st_size, 1);
    return r;
}
int fstat(int fd, struct stat *s) { return fstat_(fd, s); }
int fstat64(int fd, struct stat64 *s) { return fstat_(fd, (struct stat *)s); }
static int pstat_(const char *p, struct stat *s, int flags) {
    int hit = is_target(p);
    if (stat_fault(hit)) return -1;
    int r = syscall(SYS_newfstatat, AT_FDCWD, p, s, flags);
    if (r == 0) size_fault(hit, &s->st_size, 1);
    return r;
}
int stat(const char *restrict p, struct stat *restrict s) { return pstat_(p, s, 0); }
int stat64(const char *restrict p, struct stat64 *restrict s) { return pstat_(p, (struct stat *)s, 0); }
int lstat(const char *restrict p, struct stat *restrict s) { return pstat_(p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *restrict p, struct stat64 *restrict s) { return pstat_(p, (struct stat *)s, AT_SYMLINK_NOFOLLOW); }

static ssize_t write_(int fd, const void *buf, size_t n) {
    if (ready && fd > 2) logf_('E', fd == file_fd, n);
    if (!ready || fd != 1) return syscall(SYS_write, fd, buf, n);
    long k = i_write < n_write ? writes[i_write++] : 0;
    if (k == 1000000) { logf_('W', 0, 0); return 0; }
    if (k < 0) { logf_('W', -1, -k); errno = -k; return -1; }
    if (k > 0 && (size_t)k < n) { logf_('J', k, 0); n = k; }
    ssize_t r = syscall(SYS_write, fd, buf, n);
    logf_('W', r < 0 ? -1 : r, r < 0 ? errno : 0);
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) { return write_(fd, buf, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!ready || fd != 1) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write_(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

/* recorded and refused */
static int refused(int what) {
    if (ready) logf_('U', what, 0);
    errno = EPERM;
    return -1;
}
#define REFUSE(n, name, args) int name args { return refused(n); }
REFUSE(1, unlink, (const char *a))
REFUSE(2, unlinkat, (int d, const char *a, int f))
REFUSE(3, rename, (const char *a, const char *b))
REFUSE(4, renameat, (int d, const char *a, int e, const char *b))
REFUSE(5, renameat2, (int d, const char *a, int e, const char *b, unsigned f))
REFUSE(6, mkdir, (const char *a, mode_t m))
REFUSE(7, mkdirat, (int d, const char *a, mode_t m))
REFUSE(8, rmdir, (const char *a))
REFUSE(9, link, (const char *a, const char *b))
REFUSE(10, linkat, (int d, const char *a, int e, const char *b, int f))
REFUSE(11, symlink, (const char *a, const char *b))
REFUSE(12, symlinkat, (const char *a, int d, const char *b))
REFUSE(13, chmod, (const char *a, mode_t m))
REFUSE(14, fchmod, (int d, mode_t m))
REFUSE(15, fchmodat, (int d, const char *a, mode_t m, int f))
REFUSE(16, chown, (const char *a, uid_t u, gid_t g))
REFUSE(17, fchown, (int d, uid_t u, gid_t g))
REFUSE(18, lchown, (const char *a, uid_t u, gid_t g))
REFUSE(19, truncate, (const char *a, off_t n))
REFUSE(20, truncate64, (const char *a, off64_t n))
REFUSE(21, ftruncate, (int d, off_t n))
REFUSE(22, ftruncate64, (int d, off64_t n))
REFUSE(23, utimensat, (int d, const char *a, const struct timespec t[2], int f))
REFUSE(24, futimens, (int d, const struct timespec t[2]))
REFUSE(25, mknod, (const char *a, mode_t m, dev_t v))
REFUSE(26, mkfifo, (const char *a, mode_t m))
REFUSE(27, creat, (const char *a, mode_t m))
REFUSE(28, creat64, (const char *a, mode_t m))
REFUSE(30, execve, (const char *a, char *const v[], char *const e[]))
REFUSE(31, execv, (const char *a, char *const v[]))
REFUSE(32, execvp, (const char *a, char *const v[]))
REFUSE(33, system, (const char *a))
REFUSE(34, socket, (int a, int b, int c))
REFUSE(35, connect, (int a, const struct sockaddr *b, socklen_t c))
REFUSE(36, kill, (pid_t a, int b))
REFUSE(37, chdir, (const char *a))
REFUSE(38, posix_spawn, (pid_t *p, const char *a, const void *f, const void *t, char *const v[], char *const e[]))
REFUSE(39, posix_spawnp, (pid_t *p, const char *a, const void *f, const void *t, char *const v[], char *const e[]))
pid_t fork(void) { return refused(40); }
pid_t vfork(void) { return refused(41); }

/* the machine, the same in every run unless the script says otherwise */
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    static uint64_t k;
    (void)flags;
    for (size_t i = 0; i < n; i++) {
        uint64_t z = (host + 1) * 0x9E3779B97F4A7C15u + k++ * 0xBF58476D1CE4E5B9u;
        z = (z ^ z >> 30) * 0x94D049BB133111EBu;
        ((unsigned char *)buf)[i] = z >> 32;
    }
    return n;
}
int clock_gettime(clockid_t id, struct timespec *t) {
    static uint64_t k;
    uint64_t ns = (host % 977 * 7919 + k++ * (1 + host % 5)) * 100003;
    t->tv_sec = (id == CLOCK_REALTIME ? 1500000000 : 1000) + ns / 1000000000;
    t->tv_nsec = ns % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    struct timespec s;
    (void)z;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
pid_t getpid(void) { return 2 + host % 30011; }
int isatty(int fd) {
    if (terminal && fd >= 0 && fd <= 2) return 1;
    errno = ENOTTY;
    return 0;
}
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *s) {
    (void)pid;
    memset(s, 0, n);
    for (unsigned i = 0; i <= host % 7 && i < n * 8; i++) CPU_SET_S(i, n, s);
    return 0;
}

/* memory */
extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_calloc(size_t, size_t);
static int refuse(size_t n) {
    if (!ready || alloc_from < 0 || n < (size_t)alloc_from) return 0;
    logf_('A', n, ENOMEM);
    errno = ENOMEM;
    return 1;
}
void *malloc(size_t n) { return refuse(n) ? NULL : __libc_malloc(n); }
void *realloc(void *p, size_t n) { return refuse(n) ? NULL : __libc_realloc(p, n); }
void *calloc(size_t a, size_t b) { return refuse(a * b) ? NULL : __libc_calloc(a, b); }
