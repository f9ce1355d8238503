// Interposed libc: file I/O, clocks, sleeping and allocation of a simulated rank.
// In the server process (g_rank < 0) everything passes through.
#include <malloc.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <new>

#include "proto.h"

Scenario g_scn;
RankShm* g_shm    = nullptr;
int      g_rank   = -1;
int64_t  g_simnow = 0;
int      g_in_sim = 0;

static bool g_io_on = false;
static struct { bool on; uint8_t cls; bool wr; } g_fd[1024];
static int g_sticky_errno = 0;

ssize_t sys_read(int fd, void* b, size_t n) { return syscall(SYS_read, fd, b, n); }
ssize_t sys_write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }

static bool ends(const char* s, const char* e) { size_t a = strlen(s), b = strlen(e); return a >= b && !strcmp(s + a - b, e); }

// -1 : not a file of the simulated run
static int classify(const char* path)
{
  if (!path) return -1;
  const char* rel = path;
  if (path[0] == '/') {
    size_t n = g_scn.cwd.size();
    if (strncmp(path, g_scn.cwd.c_str(), n) || path[n] != '/') return -1;
    rel = path + n + 1;
  }
  while (rel[0] == '.' && rel[1] == '/') rel += 2;
  if (!strncmp(rel, "std", 3) || !strncmp(rel, "/", 1) || !strcmp(rel, ".")) return -1;
  if (ends(rel, ".in")) return FC_DECK;
  if (strstr(rel, ".log")) return FC_LOG;
  if (strstr(rel, "contact")) return FC_CONTACT;
  // the last .e or .g that ends a word decides: name.g.4.0, name.out.e.4.0
  int c = FC_OTHER;
  for (const char* p = rel; *p; ++p)
    if (p[0] == '.' && (p[1] == 'e' || p[1] == 'g') && (p[2] == 0 || p[2] == '.')) c = p[1] == 'e' ? FC_OUT : FC_MESH;
  return c;
}

static void die_now()
{
  g_shm->fired_kill++;
  syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
  for (;;) pause();
}

// ---- calls into the Exodus library (trampolines generated by build.sh): faults it keeps to itself
static uint32_t g_nfault = 0;      // faults injected so far, sticky repeats included
static struct { void* ret; uint32_t nfault; } g_excall[64];
static int g_exdepth = 0;
extern "C" const char* const ex_stub_names[];
extern "C" void* ex_stub_enter(void* ret, long i)
{
  ++g_in_sim;
  static void* cache[512];
  if (!cache[i]) cache[i] = dlsym(RTLD_NEXT, ex_stub_names[i]);
  if (!cache[i] || g_exdepth >= 64) abort();
  g_excall[g_exdepth++] = {ret, g_nfault};
  --g_in_sim;
  return cache[i];
}
extern "C" void* ex_stub_leave(int rc)
{
  auto& c = g_excall[--g_exdepth];
  if (g_exdepth == 0 && rc >= 0 && g_nfault != c.nfault && g_shm) g_shm->absorbed++;
  return c.ret;
}

// Samples what the rank holds: live heap and open descriptors.
static int64_t sim_live = int64_t(1) << 40;   // live heap bytes, counted from an arbitrary origin
int64_t sim_live_comms, sim_waste;   // live communicators; bytes the simulator keeps of objects the program has freed
void sim_meter()
{
  if (!g_scn.meter || !g_shm) return;
  static uint32_t calls;
  if (calls++ % 8) return;
  uint32_t i = g_shm->nmeter++;
  if (i >= MAXMETER) return;
  int se = errno;
  uint64_t fds = 0;
  for (int fd = 0; fd < 256; ++fd) fds += syscall(SYS_fcntl, fd, F_GETFD) >= 0;
  g_shm->meter[i] = (uint64_t)(sim_live - sim_waste) | fds << 48 | (uint64_t)(sim_live_comms > 255 ? 255 : sim_live_comms) << 56;
  errno = se;
}

// Records one tracked operation and returns the fault to inject, if any.
static int io_step(uint8_t kind, uint8_t cls, bool wr, int64_t bytes, int fd)
{
  sim_meter();
  uint32_t i = g_shm->nio++;
  int f = F_NONE;
  for (auto& x : g_scn.iof)
    if (x.rank == g_rank && x.nth == (int64_t)i) f = x.kind;
  bool fresh = f != F_NONE;
  if (!fresh && g_sticky_errno && wr && (kind == IO_WRITE || kind == IO_TRUNC || kind == IO_SYNC || kind == IO_OPEN))
    f = g_sticky_errno;
  if (f != F_NONE) g_nfault++;
  if (i < MAXIO) {
    IoEntry& e = g_shm->io[i];
    e.kind = kind; e.cls = cls; e.wr = wr; e.fault = f;
    e.rpc = g_shm->nrpc; e.colls = g_shm->ncoll; e.bytes = bytes; e.numrecs = -1;
    if (kind == IO_CLOSE && (cls == FC_OUT || cls == FC_CONTACT) && fd >= 0) {
      unsigned char h[8];
      if (syscall(SYS_pread64, fd, h, 8, 0L) == 8 && !memcmp(h, "CDF", 3))
        e.numrecs = (h[4] << 24) | (h[5] << 16) | (h[6] << 8) | h[7];
    }
  }
  if (fresh) {
    g_shm->fired_io++;
    if (f != F_SHORT && f != F_EINTR)
      for (auto& x : g_scn.iof)
        if (x.rank == g_rank && x.nth == (int64_t)i && x.sticky) g_sticky_errno = f;
    if (f == F_KILL_BEFORE) die_now();
  }
  if (kind == IO_CLOSE) g_shm->closes[cls & 7]++;
  return f;
}

static int fault_errno(int f)
{
  switch (f) {
    case F_EIO: case F_TORN_EIO: return EIO;
    case F_ENOSPC: case F_TORN_ENOSPC: return ENOSPC;
    case F_EACCES: return EACCES;
    case F_EMFILE: return EMFILE;
    case F_ENOENT: return ENOENT;
    case F_EINTR: return EINTR;
  }
  return 0;
}

void io_rank_begin()
{
  memset(g_fd, 0, sizeof g_fd);
  g_sticky_errno = 0;
  g_io_on = true;
}

template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

extern "C" {

static int do_open(int dirfd, const char* path, int flags, mode_t mode)
{
  int cls = g_io_on && dirfd == AT_FDCWD ? classify(path) : -1;
  int f = F_NONE;
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (cls >= 0) {
    if (wr) sim_yield(1);
    f = io_step(IO_OPEN, cls, wr, flags, -1);
    int e = fault_errno(f);
    if (e) { errno = e; return -1; }
  }
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0 && fd < 1024) g_fd[fd] = {cls >= 0, (uint8_t)(cls < 0 ? 0 : cls), wr};
  if (f == F_KILL_AFTER || f == F_KILL_MID) die_now();
  return fd;
}

int open(const char* path, int flags, ...)
{
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  return do_open(AT_FDCWD, path, flags, m);
}
int open64(const char* path, int flags, ...)
{
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  return do_open(AT_FDCWD, path, flags, m);
}
int __open_2(const char* path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char* path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int creat(const char* path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int openat(int d, const char* path, int flags, ...)
{
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  return do_open(d, path, flags, m);
}

static bool tracked(int fd) { return g_io_on && fd >= 0 && fd < 1024 && g_fd[fd].on; }

ssize_t read(int fd, void* b, size_t n)
{
  if (!tracked(fd)) return sys_read(fd, b, n);
  int f = io_step(IO_READ, g_fd[fd].cls, false, n, fd);
  if (int e = fault_errno(f)) { errno = e; return -1; }
  if (f == F_SHORT && n > 1) n /= 2;
  ssize_t r = sys_read(fd, b, n);
  if (f == F_KILL_AFTER || f == F_KILL_MID) die_now();
  return r;
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o)
{
  if (!tracked(fd)) return syscall(SYS_pread64, fd, b, n, o);
  int f = io_step(IO_READ, g_fd[fd].cls, false, n, fd);
  if (int e = fault_errno(f)) { errno = e; return -1; }
  if (f == F_SHORT && n > 1) n /= 2;
  ssize_t r = syscall(SYS_pread64, fd, b, n, o);
  if (f == F_KILL_AFTER || f == F_KILL_MID) die_now();
  return r;
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { return pread64(fd, b, n, o); }

static ssize_t wr_common(int fd, size_t n, int& f)
{
  f = io_step(IO_WRITE, g_fd[fd].cls, true, n, fd);
  return 0;
}

ssize_t write(int fd, const void* b, size_t n)
{
  if (!tracked(fd)) return sys_write(fd, b, n);
  int f; wr_common(fd, n, f);
  if (f == F_TORN_EIO || f == F_TORN_ENOSPC || f == F_KILL_MID) {
    size_t h = n / 2;
    if (h) sys_write(fd, b, h);
    if (f == F_KILL_MID) die_now();
    errno = fault_errno(f);
    return -1;
  }
  if (int e = fault_errno(f)) { errno = e; return -1; }
  if (f == F_SHORT && n > 1) n /= 2;
  ssize_t r = sys_write(fd, b, n);
  if (f == F_KILL_AFTER) die_now();
  return r;
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o)
{
  if (!tracked(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
  int f; wr_common(fd, n, f);
  if (f == F_TORN_EIO || f == F_TORN_ENOSPC || f == F_KILL_MID) {
    if (n / 2) syscall(SYS_pwrite64, fd, b, n / 2, o);
    if (f == F_KILL_MID) die_now();
    errno = fault_errno(f);
    return -1;
  }
  if (int e = fault_errno(f)) { errno = e; return -1; }
  if (f == F_SHORT && n > 1) n /= 2;
  ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
  if (f == F_KILL_AFTER) die_now();
  return r;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c)
{
  if (!tracked(fd)) return syscall(SYS_writev, fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; ++i) {
    if (!v[i].iov_len) continue;
    ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return tot ? tot : -1;
    tot += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return tot;
}
off64_t lseek64(int fd, off64_t o, int w)
{
  if (!tracked(fd)) return syscall(SYS_lseek, fd, o, w);
  int f = io_step(IO_SEEK, g_fd[fd].cls, false, o, fd);
  if (int e = fault_errno(f)) { errno = e; return -1; }
  off64_t r = syscall(SYS_lseek, fd, o, w);
  if (f == F_KILL_AFTER || f == F_KILL_MID) die_now();
  return r;
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int ftruncate64(int fd, off64_t n)
{
  if (!tracked(fd)) return syscall(SYS_ftruncate, fd, n);
  int f = io_step(IO_TRUNC, g_fd[fd].cls, true, n, fd);
  if (int e = fault_errno(f)) { errno = e; return -1; }
  int r = syscall(SYS_ftruncate, fd, n);
  if (f == F_KILL_AFTER || f == F_KILL_MID) die_now();
  return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
static int sync_common(int fd, long nr)
{
  if (!tracked(fd)) return syscall(nr, fd);
  int f = io_step(IO_SYNC, g_fd[fd].cls, true, 0, fd);
  if (int e = fault_errno(f)) { errno = e; return -1; }
  if (f == F_KILL_AFTER || f == F_KILL_MID) die_now();
  return 0;
}
int fsync(int fd) { return sync_common(fd, SYS_fsync); }
int fdatasync(int fd) { return sync_common(fd, SYS_fdatasync); }
int close(int fd)
{
  if (!tracked(fd)) { if (fd >= 0 && fd < 1024) g_fd[fd].on = false; return syscall(SYS_close, fd); }
  int f = io_step(IO_CLOSE, g_fd[fd].cls, g_fd[fd].wr, 0, fd);
  bool wr = g_fd[fd].wr;
  g_fd[fd].on = false;
  int r = syscall(SYS_close, fd);
  if (f == F_KILL_AFTER || f == F_KILL_MID) die_now();
  if (int e = fault_errno(f)) { errno = e; r = -1; }
  int se = errno;
  if (wr) sim_yield(2);
  errno = se;
  return r;
}
int unlink(const char* p)
{
  int cls = g_io_on ? classify(p) : -1;
  int f = F_NONE;
  if (cls >= 0) f = io_step(IO_UNLINK, cls, true, 0, -1);
  if (int e = fault_errno(f)) { errno = e; return -1; }
  int r = syscall(SYS_unlink, p);
  if (f == F_KILL_AFTER || f == F_KILL_MID) die_now();
  return r;
}
int remove(const char* p)
{
  int r = unlink(p);
  if (r && errno == EISDIR) r = syscall(SYS_rmdir, p);
  return r;
}
int rename(const char* a, const char* b)
{
  int cls = g_io_on ? classify(b) : -1;
  int f = F_NONE;
  if (cls >= 0) f = io_step(IO_RENAME, cls, true, 0, -1);
  if (int e = fault_errno(f)) { errno = e; return -1; }
  int r = syscall(SYS_rename, a, b);
  if (f == F_KILL_AFTER || f == F_KILL_MID) die_now();
  return r;
}

// ---- stdio entry points (their internal system calls do not pass through the PLT)
static FILE* (*real_fopen)(const char*, const char*);
static int (*real_fclose)(FILE*);
static size_t (*real_fread)(void*, size_t, size_t, FILE*);
static size_t (*real_fwrite)(const void*, size_t, size_t, FILE*);
__attribute__((constructor)) static void init_io()
{
  real_fopen  = next<decltype(real_fopen)>("fopen64");
  real_fclose = next<decltype(real_fclose)>("fclose");
  real_fread  = next<decltype(real_fread)>("fread");
  real_fwrite = next<decltype(real_fwrite)>("fwrite");
}
FILE* fopen64(const char* p, const char* m)
{
  if (!real_fopen) init_io();
  int cls = g_io_on ? classify(p) : -1;
  int f = F_NONE;
  bool wr = m && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'));
  if (cls >= 0) {
    if (wr) sim_yield(1);
    f = io_step(IO_OPEN, cls, wr, 0, -1);
    if (int e = fault_errno(f)) { errno = e; return nullptr; }
  }
  FILE* r = real_fopen(p, m);
  if (r) { int fd = fileno(r); if (fd < 1024) g_fd[fd] = {cls >= 0, (uint8_t)(cls < 0 ? 0 : cls), wr}; }
  if (f == F_KILL_AFTER || f == F_KILL_MID) die_now();
  return r;
}
FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
int fclose(FILE* s)
{
  if (!real_fclose) init_io();
  int fd = s ? fileno(s) : -1;
  if (!tracked(fd)) return real_fclose(s);
  int f = io_step(IO_CLOSE, g_fd[fd].cls, g_fd[fd].wr, 0, fd);
  bool wr = g_fd[fd].wr;
  g_fd[fd].on = false;
  int r = real_fclose(s);
  if (f == F_KILL_AFTER || f == F_KILL_MID) die_now();
  if (int e = fault_errno(f)) { errno = e; r = EOF; }
  int se = errno;
  if (wr) sim_yield(2);
  errno = se;
  return r;
}
size_t fread(void* b, size_t s, size_t n, FILE* st)
{
  if (!real_fread) init_io();
  int fd = g_io_on && st ? fileno(st) : -1;
  if (!tracked(fd)) return real_fread(b, s, n, st);
  int f = io_step(IO_READ, g_fd[fd].cls, false, s * n, fd);
  if (int e = fault_errno(f)) { errno = e; st->_flags |= 0x20; return 0; }
  size_t r = real_fread(b, s, n, st);
  if (f == F_KILL_AFTER || f == F_KILL_MID) die_now();
  return r;
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* st)
{
  if (!real_fwrite) init_io();
  int fd = g_io_on && st ? fileno(st) : -1;
  if (!tracked(fd)) return real_fwrite(b, s, n, st);
  int f = io_step(IO_WRITE, g_fd[fd].cls, true, s * n, fd);
  if (int e = fault_errno(f)) { errno = e; st->_flags |= 0x20; return 0; }
  size_t r = real_fwrite(b, s, n, st);
  if (f == F_KILL_AFTER || f == F_KILL_MID) die_now();
  return r;
}

// ---- clocks
static double sim_clock()
{
  uint32_t i = g_shm->nclock++;
  double t = 1.7e9 + (double)g_simnow * 1e-9 + 1e-7 * i;
  if ((size_t)g_rank < g_scn.clocks.size()) {
    const ClockPlan& c = g_scn.clocks[g_rank];
    double rel = c.freeze ? 0.0 : ((double)g_simnow * 1e-9 + 1e-7 * i) * c.drift;
    t = c.base + rel;
    for (auto& j : c.jumps)
      if ((int64_t)i >= j.first) { t += j.second; if ((int64_t)i == j.first) g_shm->fired_clock++; }
    if (t < 0) t = 0;
  }
  return t;
}
double sim_wtime() { return sim_clock(); }
int clock_gettime(clockid_t c, struct timespec* ts)
{
  if (!g_io_on) return syscall(SYS_clock_gettime, c, ts);
  double t = sim_clock();
  ts->tv_sec = (time_t)t; ts->tv_nsec = (long)((t - (double)ts->tv_sec) * 1e9);
  return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
  if (!g_io_on) return syscall(SYS_gettimeofday, tv, nullptr);
  double t = sim_clock();
  tv->tv_sec = (time_t)t; tv->tv_usec = (long)((t - (double)tv->tv_sec) * 1e6);
  return 0;
}
time_t time(time_t* p)
{
  time_t t;
  if (!g_io_on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; }
  else t = (time_t)sim_clock();
  if (p) *p = t;
  return t;
}
clock_t clock() 
{
  if (!g_io_on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
  return (clock_t)(sim_clock() * 1e6);
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
  if (!g_io_on) return syscall(SYS_nanosleep, a, b);
  sim_yield(1000 + (int)(a->tv_sec * 1000 + a->tv_nsec / 1000000));
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b)
{
  if (!g_io_on) return syscall(SYS_clock_nanosleep, c, fl, a, b);
  sim_yield(1001);
  return 0;
}
int usleep(useconds_t us)
{
  if (!g_io_on) { struct timespec ts{us / 1000000, (long)(us % 1000000) * 1000}; return syscall(SYS_nanosleep, &ts, nullptr); }
  sim_yield(1000 + us / 1000);
  return 0;
}
unsigned sleep(unsigned s)
{
  if (!g_io_on) { struct timespec ts{s, 0}; syscall(SYS_nanosleep, &ts, nullptr); return 0; }
  sim_yield(1000 + s * 1000);
  return 0;
}
int sched_yield(void)
{
  if (!g_io_on) return syscall(SYS_sched_yield);
  sim_yield(3);
  return 0;
}

// ---- allocation
extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
extern void __libc_free(void*);
extern char __executable_start, etext;

static bool alloc_fails(uint64_t i, int mode)
{
  for (size_t k = 0; k < g_scn.allocf.size(); ++k) {
    if (g_scn.allocf[k].first != g_rank || g_scn.allocf_mode[k] != mode) continue;
    uint64_t n = (uint64_t)g_scn.allocf[k].second;
    if (i == n || (g_scn.alloc_sticky[k] && i > n)) { g_shm->fired_alloc++; g_nfault++; return true; }
  }
  return false;
}
static inline bool deny()
{
  if (!g_io_on || g_in_sim) return false;
  return alloc_fails(g_shm->nalloc++, 0);
}
// Live bytes, independently of what the allocator keeps for itself.
static inline void* live(void* p) { if (p) sim_live += malloc_usable_size(p); return p; }
void* malloc(size_t n) { if (deny()) { errno = ENOMEM; return nullptr; } return live(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { if (deny()) { errno = ENOMEM; return nullptr; } return live(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n)
{
  if (n && deny()) { errno = ENOMEM; return nullptr; }
  int64_t had = p ? malloc_usable_size(p) : 0;
  void* q = __libc_realloc(p, n);
  if (q || !n) { sim_live -= had; live(q); }
  return q;
}
void free(void* p) { if (p) sim_live -= malloc_usable_size(p); __libc_free(p); }
void* memalign(size_t a, size_t n) { if (deny()) { errno = ENOMEM; return nullptr; } return live(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { if (deny()) { errno = ENOMEM; return nullptr; } return live(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n)
{
  if (deny()) return ENOMEM;
  *p = live(__libc_memalign(a, n));
  return *p ? 0 : ENOMEM;
}
}  // extern "C"

static inline bool deny_new(void* ra)
{
  if (!g_io_on || g_in_sim) return false;
  if ((char*)ra < &__executable_start || (char*)ra > &etext) return false;
  return alloc_fails(g_shm->nallocx++, 1);
}
void* operator new(size_t n)
{
  if (deny_new(__builtin_return_address(0))) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n)
{
  if (deny_new(__builtin_return_address(0))) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
