/* Simulated operating system boundary.
 *
 * Loaded (LD_PRELOAD) into the unmodified limabean-pod / limabean binaries.  Every call by which
 * the program can meet nondeterminism or a fault - standard streams, files, directories, clocks,
 * randomness, sleeping, process creation - is turned into one synchronous request to the simulator
 * process, which alone decides the outcome.  Nothing is decided here.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

enum {
  OP_HELLO = 1, OP_READ = 2, OP_WRITE = 3, OP_OPEN = 4, OP_FREAD = 5, OP_FWRITE = 6, OP_STAT = 7,
  OP_READDIR = 8, OP_REALPATH = 9, OP_RAND = 10, OP_CLOCK = 11, OP_SLEEP = 12, OP_EXEC = 13,
  OP_SPAWN = 14, OP_MUTATE = 15, OP_LSEEK = 16, OP_FSTAT = 17, OP_ACCESS = 18, OP_MUTFD = 19,
  OP_READLINK = 20, OP_FSYNC = 21, OP_ALLOC = 22,
};

struct req { uint32_t op, len; int64_t a, b, c; uint32_t threads, allocs; int64_t live; };
struct rep { int64_t ret; int32_t err; uint32_t len; };

#define MAXFD 4096
static int sock = -1;
static int handle_of[MAXFD];             /* fd -> simulator handle, 0 when real */
static char *path_of[MAXFD];             /* directories only */
static char cwd[PATH_MAX] = "/sim/cwd";
static char helper[PATH_MAX];
static volatile uint32_t nthreads = 1;
/* bits 0-2: which of the standard streams are terminals; 3-9: processors; 10: another user; 12-: process */
static unsigned long machine;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

/* the program's requests for memory: counted, and refused as the simulator said at the start */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t),
    *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static volatile uint32_t nallocs;
static volatile int64_t live;            /* bytes in use */
static void *held(void *p) { if (p) __sync_fetch_and_add(&live, (int64_t)malloc_usable_size(p)); return p; }
static int64_t refused;                  /* n: the n-th; -n: from the n-th on; 0: none */
static int refuse(void) {
  if (sock < 0) return 0;
  uint32_t n = __sync_add_and_fetch(&nallocs, 1);
  int64_t k = refused;
  if (k == 0 || (k > 0 ? n != k : (int64_t)n < -k)) return 0;
  errno = ENOMEM;
  return 1;
}
void *malloc(size_t n) { return refuse() ? NULL : held(__libc_malloc(n)); }
void *calloc(size_t m, size_t n) { return refuse() ? NULL : held(__libc_calloc(m, n)); }
void *memalign(size_t a, size_t n) { return refuse() ? NULL : held(__libc_memalign(a, n)); }
void free(void *p) {
  if (p) __sync_fetch_and_sub(&live, (int64_t)malloc_usable_size(p));
  __libc_free(p);
}
void *realloc(void *p, size_t n) {
  if (refuse()) return NULL;
  int64_t was = p ? (int64_t)malloc_usable_size(p) : 0;
  void *q = __libc_realloc(p, n);
  if (q || !n) { __sync_fetch_and_sub(&live, was); held(q); }
  return q;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) {
  int e = errno;
  void *q = memalign(a, n);
  errno = e;
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}
static void *own(void *p) { if (!p) for (;;) __builtin_trap(); return held(p); }
static char *own_copy(const char *s) { size_t n = strlen(s) + 1; return memcpy(own(__libc_malloc(n)), s, n); }

static long raw3(long n, long a, long b, long c) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  return r;
}
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static long fix(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static void die(void) { for (;;) raw3(SYS_exit_group, 97, 0, 0); }

static void send_all(const void *p, size_t n) {
  const char *c = p;
  while (n) {
    long r = raw6(SYS_sendto, sock, (long)c, (long)n, 0x4000, 0, 0);
    if (r == -EINTR) continue;
    if (r <= 0) die();
    c += r; n -= (size_t)r;
  }
}
static void recv_all(void *p, size_t n) {
  char *c = p;
  while (n) {
    long r = raw3(SYS_read, sock, (long)c, (long)n);
    if (r == -EINTR) continue;
    if (r <= 0) die();
    c += r; n -= (size_t)r;
  }
}

/* one request; up to two payload pieces out, reply payload into buf (capacity cap) */
static int64_t call2(uint32_t op, int64_t a, int64_t b, int64_t c, const void *p1, size_t n1,
                     const void *p2, size_t n2, void *buf, size_t cap, size_t *got, int *err) {
  struct req q = {op, (uint32_t)(n1 + n2), a, b, c, nthreads, nallocs, live};
  struct rep r;
  pthread_mutex_lock(&lock);
  send_all(&q, sizeof q);
  if (n1) send_all(p1, n1);
  if (n2) send_all(p2, n2);
  recv_all(&r, sizeof r);
  size_t left = r.len, take = left < cap ? left : cap;
  if (take) recv_all(buf, take);
  left -= take;
  while (left) { char sink[512]; size_t k = left < sizeof sink ? left : sizeof sink; recv_all(sink, k); left -= k; }
  pthread_mutex_unlock(&lock);
  if (got) *got = take;
  if (err) *err = r.err;
  if (r.ret == -1) errno = r.err;
  return r.ret;
}
static int64_t call(uint32_t op, int64_t a, int64_t b, int64_t c, const void *p, size_t n, void *buf,
                    size_t cap, size_t *got) {
  return call2(op, a, b, c, p, n, NULL, 0, buf, cap, got, NULL);
}

static int on(void) { return sock >= 0; }
static int vfd(int fd) { return on() && fd >= 0 && fd < MAXFD && handle_of[fd]; }

__attribute__((constructor)) static void init(void) {
  const char *h = getenv("SIM_HELPER");
  const char *s = getenv("SIM_ON");
  if (!s) return;
  if (h) { strncpy(helper, h, sizeof helper - 1); }
  int hi = (int)raw3(SYS_fcntl, 0, F_DUPFD_CLOEXEC, 1000);
  if (hi < 0) die();
  int nul = (int)raw6(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR, 0, 0, 0);
  if (nul < 0) die();
  raw3(SYS_dup2, nul, 0, 0);
  raw3(SYS_dup2, nul, 1, 0);
  raw3(SYS_dup2, nul, 2, 0);
  raw3(SYS_close, nul, 0, 0);
  unsetenv("LD_PRELOAD"); unsetenv("SIM_ON"); unsetenv("SIM_HELPER"); unsetenv("SIM_PAD");
  if (getenv("SIM_MACHINE")) machine = strtoul(getenv("SIM_MACHINE"), NULL, 10);
  unsetenv("SIM_MACHINE");
  sock = hi;
  size_t got = 0;
  refused = call(OP_HELLO, raw3(SYS_getpid, 0, 0, 0), 0, 0, NULL, 0, cwd, sizeof cwd - 1, &got);
  cwd[got] = 0;
}

/* ---------- paths ---------- */
static int under_sim(const char *p) {
  return strncmp(p, "/sim", 4) == 0 && (p[4] == 0 || p[4] == '/');
}
/* absolute form of path relative to dirfd, or NULL when it concerns the real system */
static __attribute__((noinline)) const char *abspath_(int dirfd, const char *p, char *out) {
  if (!on() || !p) return NULL;
  if (p[0] == '/') {
    if (under_sim(p)) return p;
    if (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")) return p;
    return NULL;
  }
  const char *base = cwd;
  if (dirfd != AT_FDCWD) {
    if (dirfd < 0 || dirfd >= MAXFD || !path_of[dirfd]) return NULL;
    base = path_of[dirfd];
  }
  if (strlen(base) + strlen(p) + 2 > PATH_MAX) return NULL;
  strcpy(out, base); strcat(out, "/"); strcat(out, p);
  return out;
}
#define SIMPATH(dirfd, p) char buf_[PATH_MAX]; const char *sp = abspath_((dirfd), (p), buf_)

/* ---------- standard streams and files ---------- */
ssize_t read(int fd, void *buf, size_t n) {
  if (on() && fd == 0) {
    for (;;) {
      int64_t r = call(OP_READ, 0, (int64_t)n, 0, NULL, 0, buf, n, NULL);
      if (r != -1000) return r;
      /* other threads may still owe an answer: let them run, then ask again */
      struct timespec t = {0, 200000};
      raw3(SYS_nanosleep, (long)&t, 0, 0);
    }
  }
  if (vfd(fd)) return call(OP_FREAD, handle_of[fd], (int64_t)n, -1, NULL, 0, buf, n, NULL);
  return fix(raw3(SYS_read, fd, (long)buf, (long)n));
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t bl) { (void)bl; return read(fd, buf, n); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
  if (vfd(fd)) return call(OP_FREAD, handle_of[fd], (int64_t)n, off, NULL, 0, buf, n, NULL);
  return fix(raw6(SYS_pread64, fd, (long)buf, (long)n, off, 0, 0));
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
ssize_t readv(int fd, const struct iovec *iov, int cnt) {
  if (on() && (fd == 0 || vfd(fd))) {
    for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return read(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
  }
  return fix(raw3(SYS_readv, fd, (long)iov, cnt));
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (on() && (fd == 1 || fd == 2)) return call(OP_WRITE, fd, (int64_t)n, 0, buf, n, NULL, 0, NULL);
  if (on() && fd == 0) { errno = EBADF; return -1; }
  if (vfd(fd)) return call(OP_FWRITE, handle_of[fd], (int64_t)n, 0, buf, n, NULL, 0, NULL);
  return fix(raw3(SYS_write, fd, (long)buf, (long)n));
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  if (on() && (fd == 1 || fd == 2 || vfd(fd))) {
    size_t total = 0;
    for (int i = 0; i < cnt; i++) total += iov[i].iov_len;
    char *tmp = own(__libc_malloc(total ? total : 1));
    size_t o = 0;
    for (int i = 0; i < cnt; i++) { memcpy(tmp + o, iov[i].iov_base, iov[i].iov_len); o += iov[i].iov_len; }
    ssize_t r = write(fd, tmp, total);
    int e = errno; free(tmp); errno = e;
    return r;
  }
  return fix(raw3(SYS_writev, fd, (long)iov, cnt));
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
  if (vfd(fd)) return call(OP_MUTFD, handle_of[fd], 0, 0, "pwrite", 6, NULL, 0, NULL);
  return fix(raw6(SYS_pwrite64, fd, (long)buf, (long)n, off, 0, 0));
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
  if (on()) { errno = EINVAL; return -1; }
  return fix(raw6(SYS_splice, a, (long)b, c, (long)d, (long)n, f));
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (on()) { errno = EINVAL; return -1; }
  return fix(raw6(SYS_sendfile, o, i, (long)off, (long)n, 0, 0));
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
  if (on()) { errno = ENOSYS; return -1; }
  return fix(raw6(SYS_copy_file_range, a, (long)b, c, (long)d, (long)n, f));
}
off64_t lseek64(int fd, off64_t off, int wh) {
  if (on() && fd >= 0 && fd <= 2) { errno = ESPIPE; return -1; }
  if (vfd(fd)) return call(OP_LSEEK, handle_of[fd], off, wh, NULL, 0, NULL, 0, NULL);
  return fix(raw3(SYS_lseek, fd, off, wh));
}
off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
int fsync(int fd) {
  if (vfd(fd)) return (int)call(OP_FSYNC, handle_of[fd], 0, 0, NULL, 0, NULL, 0, NULL);
  return (int)fix(raw3(SYS_fsync, fd, 0, 0));
}
int fdatasync(int fd) { return fsync(fd); }
int ftruncate64(int fd, off64_t n) {
  if (vfd(fd)) return (int)call(OP_MUTFD, handle_of[fd], n, 0, "ftruncate", 9, NULL, 0, NULL);
  return (int)fix(raw3(SYS_ftruncate, fd, n, 0));
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int close(int fd) {
  if (on() && fd == sock) { errno = EBADF; return -1; }
  if (on() && fd >= 0 && fd < MAXFD) {
    handle_of[fd] = 0;
    if (path_of[fd]) { free(path_of[fd]); path_of[fd] = NULL; }
  }
  return (int)fix(raw3(SYS_close, fd, 0, 0));
}

static int real_write_intent(int flags) {
  return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  SIMPATH(dirfd, path);
  if (!sp) {
    if (on() && real_write_intent(flags) && strcmp(path, "/dev/null") && strcmp(path, "/dev/tty")) {
      call2(OP_MUTATE, 0, 0, 0, "open-write\0", 11, path, strlen(path), NULL, 0, NULL, NULL);
      errno = EROFS; return -1;
    }
    return (int)fix(raw6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
  }
  /* reply payload: whole content (so that the descriptor is also usable natively, e.g. mmap) */
  size_t cap = 1 << 22, got = 0;
  char *content = mmap(NULL, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  int64_t h = call(OP_OPEN, flags, mode, 0, sp, strlen(sp), content, cap, &got);
  int e = errno, fd = -1;
  if (h > 0) {
    fd = (int)raw3(SYS_memfd_create, (long)"sim", 1 /*MFD_CLOEXEC*/, 0);
    if (fd < 0 || fd >= MAXFD) die();
    size_t o = 0;
    while (o < got) { long r = raw3(SYS_write, fd, (long)(content + o), (long)(got - o)); if (r <= 0) die(); o += (size_t)r; }
    raw3(SYS_lseek, fd, 0, SEEK_SET);
    handle_of[fd] = (int)h;
    path_of[fd] = own_copy(sp);
  }
  munmap(content, cap);
  errno = e;
  return fd;
}
#define OPENMODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags, m); }
int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

/* ---------- stat ---------- */
struct simstat { uint32_t mode; uint32_t pad; uint64_t ino, size; int64_t mtime; };
static void fill_stat(struct stat *st, const struct simstat *s) {
  memset(st, 0, sizeof *st);
  st->st_mode = s->mode; st->st_ino = s->ino; st->st_size = (off_t)s->size; st->st_nlink = 1;
  st->st_dev = 77; st->st_blksize = 4096; st->st_blocks = (blkcnt_t)((s->size + 511) / 512);
  st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = s->mtime;
}
static int sim_stat(const char *sp, int nofollow, struct simstat *s) {
  return (int)call(OP_STAT, nofollow, 0, 0, sp, strlen(sp), s, sizeof *s, NULL);
}
static int sim_fstat(int fd, struct simstat *s) {
  return (int)call(OP_FSTAT, handle_of[fd], 0, 0, NULL, 0, s, sizeof *s, NULL);
}
static int stat_at(int d, const char *p, struct stat *st, int flags) {
  if (on() && p && !p[0] && (flags & AT_EMPTY_PATH) && vfd(d)) {
    struct simstat s; int r = sim_fstat(d, &s); if (r == 0) fill_stat(st, &s); return r;
  }
  SIMPATH(d, p);
  if (sp && p[0]) {
    struct simstat s; int r = sim_stat(sp, !!(flags & AT_SYMLINK_NOFOLLOW), &s);
    if (r == 0) fill_stat(st, &s);
    return r;
  }
  return (int)fix(raw6(SYS_newfstatat, d, (long)p, (long)st, flags, 0, 0));
}
int stat(const char *p, struct stat *st) { return stat_at(AT_FDCWD, p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return stat_at(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat(const char *p, struct stat *st) { return stat_at(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *st) { return stat_at(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *st, int f) { return stat_at(d, p, st, f); }
int fstatat64(int d, const char *p, struct stat64 *st, int f) { return stat_at(d, p, (struct stat *)st, f); }
int fstat(int fd, struct stat *st) {
  if (vfd(fd)) { struct simstat s; int r = sim_fstat(fd, &s); if (r == 0) fill_stat(st, &s); return r; }
  if (on() && fd >= 0 && fd <= 2) { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; return 0; }
  return (int)fix(raw6(SYS_newfstatat, fd, (long)"", (long)st, AT_EMPTY_PATH, 0, 0));
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int statx(int d, const char *p0, int flags, unsigned mask, struct statx *x) {
  const char *volatile pv = p0; const char *p = pv; /* declared nonnull, yet callers probe with NULL */
  struct simstat s;
  int r, have = 0;
  if (on() && p && !p[0] && (flags & AT_EMPTY_PATH) && d >= 0 && d <= 2) {
    memset(x, 0, sizeof *x); x->stx_mask = STATX_BASIC_STATS; x->stx_mode = S_IFIFO | 0600; return 0;
  }
  if (on() && p && !p[0] && (flags & AT_EMPTY_PATH) && vfd(d)) { r = sim_fstat(d, &s); have = 1; }
  else {
    SIMPATH(d, p);
    if (sp && p && p[0]) { r = sim_stat(sp, !!(flags & AT_SYMLINK_NOFOLLOW), &s); have = 1; }
  }
  if (!have) return (int)fix(raw6(SYS_statx, d, (long)p, flags, mask, (long)x, 0));
  if (r != 0) return r;
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS; x->stx_blksize = 4096; x->stx_nlink = 1;
  x->stx_mode = (uint16_t)s.mode; x->stx_ino = s.ino; x->stx_size = s.size; x->stx_dev_major = 77;
  x->stx_mtime.tv_sec = x->stx_ctime.tv_sec = x->stx_atime.tv_sec = s.mtime;
  return 0;
}
int faccessat(int d, const char *p, int m, int f) {
  SIMPATH(d, p);
  if (sp) return (int)call(OP_ACCESS, m, 0, 0, sp, strlen(sp), NULL, 0, NULL);
  return (int)fix(raw6(SYS_faccessat, d, (long)p, m, f, 0, 0));
}
int access(const char *p, int m) { return faccessat(AT_FDCWD, p, m, 0); }
ssize_t readlinkat(int d, const char *p, char *b, size_t n) {
  SIMPATH(d, p);
  if (sp) return call(OP_READLINK, 0, 0, 0, sp, strlen(sp), b, n, NULL);
  return fix(raw6(SYS_readlinkat, d, (long)p, (long)b, (long)n, 0, 0));
}
ssize_t readlink(const char *p, char *b, size_t n) { return readlinkat(AT_FDCWD, p, b, n); }
char *realpath(const char *p, char *res) {
  SIMPATH(AT_FDCWD, p);
  if (!sp) {
    static char *(*real)(const char *, char *);
    if (!real) real = (char *(*)(const char *, char *))dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
    return real(p, res);
  }
  char tmp[PATH_MAX]; size_t got = 0;
  if (call(OP_REALPATH, 0, 0, 0, sp, strlen(sp), tmp, sizeof tmp - 1, &got) < 0) return NULL;
  tmp[got] = 0;
  if (!res) return own_copy(tmp);
  strcpy(res, tmp); return res;
}
char *getcwd(char *b, size_t n) {
  if (!on()) { return fix(raw3(SYS_getcwd, (long)b, (long)n, 0)) < 0 ? NULL : b; }
  if (!b) return own_copy(cwd);
  if (strlen(cwd) + 1 > n) { errno = ERANGE; return NULL; }
  strcpy(b, cwd); return b;
}
int chdir(const char *p) {
  if (on()) { call2(OP_MUTATE, 0, 0, 0, "chdir\0", 6, p, strlen(p), NULL, 0, NULL, NULL); errno = EACCES; return -1; }
  return (int)fix(raw3(SYS_chdir, (long)p, 0, 0));
}

/* ---------- directories ---------- */
struct fakedir { uint64_t magic; size_t pos, len; char *data; int fd; struct dirent64 ent; };
#define NFAKE 64
static struct fakedir *fakes[NFAKE];
static struct fakedir *fake(DIR *d) {
  for (int i = 0; i < NFAKE; i++) if (fakes[i] && (void *)fakes[i] == (void *)d) return fakes[i];
  return NULL;
}
static DIR *fakeopen(const char *sp, int fd) {
  size_t cap = 1 << 20, got = 0;
  char *data = own(__libc_malloc(cap));
  int64_t r = call(OP_READDIR, 0, 0, 0, sp, strlen(sp), data, cap, &got);
  if (r < 0) { int e = errno; free(data); errno = e; return NULL; }
  for (int i = 0; i < NFAKE; i++) if (!fakes[i]) {
    struct fakedir *f = own(__libc_calloc(1, sizeof *f));
    f->data = data; f->len = got; f->fd = fd;
    if (fd < 0) {
      f->fd = (int)raw3(SYS_memfd_create, (long)"simdir", 1, 0);
      path_of[f->fd] = own_copy(sp);
    }
    fakes[i] = f;
    return (DIR *)f;
  }
  die();
  return NULL;
}
DIR *opendir(const char *p) {
  SIMPATH(AT_FDCWD, p);
  if (sp) return fakeopen(sp, -1);
  static DIR *(*real)(const char *);
  if (!real) real = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
  return real(p);
}
DIR *fdopendir(int fd) {
  if (on() && fd >= 0 && fd < MAXFD && path_of[fd]) return fakeopen(path_of[fd], fd);
  static DIR *(*real)(int);
  if (!real) real = (DIR * (*)(int)) dlsym(RTLD_NEXT, "fdopendir");
  return real(fd);
}
/* payload: per entry  type(1) errno(1) ino(8) namelen(2) name */
struct dirent64 *readdir64(DIR *d) {
  struct fakedir *f = on() ? fake(d) : NULL;
  if (!f) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) real = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
    return real(d);
  }
  if (f->pos + 12 > f->len) return NULL;
  unsigned char *e = (unsigned char *)f->data + f->pos;
  uint16_t nl; memcpy(&nl, e + 10, 2);
  f->pos += 12u + nl;
  if (e[1]) { errno = e[1]; return NULL; }
  memset(&f->ent, 0, sizeof f->ent);
  memcpy(&f->ent.d_ino, e + 2, 8);
  f->ent.d_type = e[0]; f->ent.d_reclen = sizeof f->ent; f->ent.d_off = (off64_t)f->pos;
  memcpy(f->ent.d_name, e + 12, nl);
  return &f->ent;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
  struct fakedir *f = on() ? fake(d) : NULL;
  if (!f) {
    static int (*real)(DIR *);
    if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    return real(d);
  }
  for (int i = 0; i < NFAKE; i++) if (fakes[i] == f) fakes[i] = NULL;
  close(f->fd);
  free(f->data); free(f);
  return 0;
}
int dirfd(DIR *d) {
  struct fakedir *f = on() ? fake(d) : NULL;
  if (f) return f->fd;
  static int (*real)(DIR *);
  if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "dirfd");
  return real(d);
}

/* ---------- anything that would change a file system ---------- */
static int mutate(const char *what, int dirfd, const char *p) {
  SIMPATH(dirfd, p);
  return (int)call2(OP_MUTATE, sp ? 1 : 0, 0, 0, what, strlen(what) + 1, sp ? sp : (p ? p : ""),
                    strlen(sp ? sp : (p ? p : "")), NULL, 0, NULL, NULL);
}
#define MUT(decl, what, d, p, nr) int decl { if (on()) return mutate(what, d, p); errno = ENOSYS; return -1; }
MUT(unlink(const char *p), "unlink", AT_FDCWD, p, 0)
MUT(unlinkat(int d, const char *p, int f), "unlink", d, p, 0)
MUT(remove(const char *p), "remove", AT_FDCWD, p, 0)
MUT(rename(const char *p, const char *q), "rename", AT_FDCWD, p, 0)
MUT(renameat(int d, const char *p, int e, const char *q), "rename", d, p, 0)
MUT(renameat2(int d, const char *p, int e, const char *q, unsigned f), "rename", d, p, 0)
MUT(mkdir(const char *p, mode_t m), "mkdir", AT_FDCWD, p, 0)
MUT(mkdirat(int d, const char *p, mode_t m), "mkdir", d, p, 0)
MUT(rmdir(const char *p), "rmdir", AT_FDCWD, p, 0)
MUT(link(const char *p, const char *q), "link", AT_FDCWD, q, 0)
MUT(linkat(int d, const char *p, int e, const char *q, int f), "link", e, q, 0)
MUT(symlink(const char *p, const char *q), "symlink", AT_FDCWD, q, 0)
MUT(symlinkat(const char *p, int d, const char *q), "symlink", d, q, 0)
MUT(chmod(const char *p, mode_t m), "chmod", AT_FDCWD, p, 0)
MUT(fchmodat(int d, const char *p, mode_t m, int f), "chmod", d, p, 0)
MUT(chown(const char *p, uid_t u, gid_t g), "chown", AT_FDCWD, p, 0)
MUT(lchown(const char *p, uid_t u, gid_t g), "chown", AT_FDCWD, p, 0)
MUT(fchownat(int d, const char *p, uid_t u, gid_t g, int f), "chown", d, p, 0)
MUT(truncate(const char *p, off_t n), "truncate", AT_FDCWD, p, 0)
MUT(truncate64(const char *p, off64_t n), "truncate", AT_FDCWD, p, 0)
MUT(utimensat(int d, const char *p, const struct timespec *t, int f), "utimens", d, p, 0)
MUT(mknod(const char *p, mode_t m, dev_t v), "mknod", AT_FDCWD, p, 0)
MUT(mkfifo(const char *p, mode_t m), "mkfifo", AT_FDCWD, p, 0)
static int mutfd(int fd, const char *what) {
  if (vfd(fd)) return (int)call(OP_MUTFD, handle_of[fd], 0, 0, what, strlen(what), NULL, 0, NULL);
  errno = EBADF; return -1;
}
int fchmod(int fd, mode_t m) { if (on()) return mutfd(fd, "fchmod"); return (int)fix(raw3(SYS_fchmod, fd, m, 0)); }
int fchown(int fd, uid_t u, gid_t g) { if (on()) return mutfd(fd, "fchown"); return (int)fix(raw3(SYS_fchown, fd, u, g)); }
int futimens(int fd, const struct timespec *t) { if (on()) return mutfd(fd, "futimens"); return (int)fix(raw6(SYS_utimensat, fd, 0, (long)t, 0, 0, 0)); }

/* ---------- randomness and time ---------- */
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!on()) return fix(raw3(SYS_getrandom, (long)b, (long)n, f));
  return call(OP_RAND, (int64_t)n, 0, 0, NULL, 0, b, n, NULL);
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!on()) return (int)fix(raw3(SYS_clock_gettime, id, (long)ts, 0));
  int64_t v[2] = {0, 0};
  call(OP_CLOCK, id, 0, 0, NULL, 0, v, sizeof v, NULL);
  ts->tv_sec = v[0]; ts->tv_nsec = v[1];
  return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  struct timespec ts; (void)tz;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!on()) return (int)fix(raw3(SYS_nanosleep, (long)a, (long)b, 0));
  call(OP_SLEEP, a->tv_sec, a->tv_nsec, 0, NULL, 0, NULL, 0, NULL);
  return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
  (void)id; (void)b;
  if (!on()) return (int)-raw6(SYS_clock_nanosleep, id, fl, (long)a, (long)b, 0, 0);
  call(OP_SLEEP, a->tv_sec, a->tv_nsec, fl, NULL, 0, NULL, 0, NULL);
  return 0;
}
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, NULL); }
unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, NULL); return 0; }

/* ---------- threads: only counted ---------- */
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
  __sync_fetch_and_add(&nthreads, 1);
  return real(t, a, f, x);
}

/* ---------- processes ---------- */
/* payload: prog\0 argc args\0... envc env\0... */
static char *pack(const char *prog, char *const argv[], char *const envp[], size_t *len) {
  size_t n = strlen(prog) + 1 + 16;
  uint32_t ac = 0, ec = 0;
  for (; argv && argv[ac]; ac++) n += strlen(argv[ac]) + 1;
  for (; envp && envp[ec]; ec++) n += strlen(envp[ec]) + 1;
  char *b = own(__libc_malloc(n)), *p = b;
  strcpy(p, prog); p += strlen(prog) + 1;
  memcpy(p, &ac, 4); p += 4;
  memcpy(p, &ec, 4); p += 4;
  for (uint32_t i = 0; i < ac; i++) { strcpy(p, argv[i]); p += strlen(argv[i]) + 1; }
  for (uint32_t i = 0; i < ec; i++) { strcpy(p, envp[i]); p += strlen(envp[i]) + 1; }
  *len = (size_t)(p - b);
  return b;
}
static int do_exec(const char *prog, char *const argv[], char *const envp[], int path) {
  size_t n; char *b = pack(prog, argv, envp, &n);
  int64_t r = call(OP_EXEC, path, 0, 0, b, n, NULL, 0, NULL);
  int e = errno; free(b); errno = e;
  if (r < 0) return -1;
  raw3(SYS_exit_group, r, 0, 0); /* the new image runs and ends with status r */
  return -1;
}
extern char **environ;
int execve(const char *p, char *const a[], char *const e[]) { if (!on()) return (int)fix(raw3(SYS_execve, (long)p, (long)a, (long)e)); return do_exec(p, a, e, 0); }
int execv(const char *p, char *const a[]) { return execve(p, a, environ); }
int execvp(const char *p, char *const a[]) { if (!on()) { errno = ENOSYS; return -1; } return do_exec(p, a, environ, 1); }
int execvpe(const char *p, char *const a[], char *const e[]) { if (!on()) { errno = ENOSYS; return -1; } return do_exec(p, a, e, 1); }

typedef int (*spawn_t)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
static int do_spawn(pid_t *pid, const char *prog, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at,
                    char *const argv[], char *const envp[], int path) {
  static spawn_t real;
  if (!real) real = (spawn_t)dlsym(RTLD_NEXT, "posix_spawn");
  size_t n, got = 0; char *b = pack(prog, argv, envp, &n);
  char spec[65536];
  int64_t r = call(OP_SPAWN, path, 0, 0, b, n, spec, sizeof spec - 1, &got);
  int e = errno; free(b);
  if (r < 0) return e;
  spec[got] = 0; /* "<code> <hex stdout> <hex stderr>" understood by the helper */
  char *av[] = {"simctl", "__child", spec, NULL};
  char *ev[] = {NULL};
  return real(pid, helper, fa, at, av, ev);
}
int posix_spawn(pid_t *pid, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const a[], char *const e[]) {
  return do_spawn(pid, p, fa, at, a, e, 0);
}
int posix_spawnp(pid_t *pid, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const a[], char *const e[]) {
  return do_spawn(pid, p, fa, at, a, e, 1);
}

/* what program and host are: some appears in panic messages */
static pid_t who(void) { return machine >> 12 ? (pid_t)(machine >> 12) : 1000; }
pid_t gettid(void) { return on() ? who() : (pid_t)raw3(SYS_gettid, 0, 0, 0); }
pid_t getpid(void) { return on() ? who() : (pid_t)raw3(SYS_getpid, 0, 0, 0); }
uid_t getuid(void) { return on() ? (machine >> 10 & 1 ? 1000 : 0) : (uid_t)raw3(SYS_getuid, 0, 0, 0); }
uid_t geteuid(void) { return on() ? getuid() : (uid_t)raw3(SYS_geteuid, 0, 0, 0); }
int isatty(int fd) {
  if (!on()) { struct { char b[256]; } t; return raw3(SYS_ioctl, fd, 0x5401, (long)&t) == 0; }
  if (fd >= 0 && fd < 3 && machine >> fd & 1) return 1;
  errno = ENOTTY;
  return 0;
}
static int processors(void) { int n = (int)(machine >> 3 & 127); return n ? n : 4; }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *set) {
  if (!on()) { long r = fix(raw3(SYS_sched_getaffinity, p, (long)n, (long)set)); return r < 0 ? -1 : 0; }
  memset(set, 0, n);
  for (int i = 0; i < processors() && i < (int)n * 8; i++) ((unsigned char *)set)[i / 8] |= (unsigned char)(1u << i % 8);
  return 0;
}
extern long __sysconf(int);
long sysconf(int k) {
  if (on() && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return processors();
  return __sysconf(k);
}
