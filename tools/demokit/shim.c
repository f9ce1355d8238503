// LD_PRELOAD shim for demonstrations: legal but unusual behaviour of MPI, and
// failing or dying file operations on files whose name holds a given text.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <mpi.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>

static long ev(const char* n, long d) { const char* s = getenv(n); return s && *s ? atol(s) : d; }
static int  rank_(void) { const char* s = getenv("OMPI_COMM_WORLD_RANK"); return s ? atoi(s) : 0; }
static int  mine(void) { long r = ev("SHIM_RANK", -1); return r < 0 || r == rank_(); }

// ---- MPI: a non-blocking reduction is started only after SHIM_LATE polls (or when waited for)
#define MAXP 256
static struct { int used, polls; const void* s; void* r; int n; MPI_Datatype t; MPI_Op o; MPI_Comm c; MPI_Request real; int started; MPI_Request* key; } P[MAXP];
static int seq;
static struct lazy { int used; const void* s; void* r; int n; MPI_Datatype t; MPI_Op o; MPI_Comm c; } L[MAXP];
static void begin(MPI_Request* q)
{
  struct lazy* l = (struct lazy*)*q;
  if (l < L || l >= L + MAXP) return;
  l->used = 0;
  PMPI_Iallreduce(l->s, l->r, l->n, l->t, l->o, l->c, q);
}
static void one_reduction(void)
{
  static long k;
  long n = ev("SHIM_KILLRED", -1);
  if (getenv("SHIM_COUNT")) fprintf(stderr, "shim rank %d reduction %ld\n", rank_(), k);
  if (n >= 0 && mine() && k == n) { usleep(ev("SHIM_KILLWAIT", 0)); kill(getpid(), SIGKILL); }
  ++k;
}
int MPI_Iallreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* q)
{
  one_reduction();
  if (ev("SHIM_LAZY", 0)) {
    // Nothing of the operation happens before the caller polls or waits
    for (int i = 0; i < MAXP; ++i)
      if (!L[i].used) { L[i].used = 1; L[i].s = s; L[i].r = r; L[i].n = n; L[i].t = t; L[i].o = o; L[i].c = c; *q = (MPI_Request)&L[i]; return MPI_SUCCESS; }
    abort();
  }
  // Collectives of one communicator have to start in order, so they are started at once;
  // what is late is the delivery: the result goes to a hidden buffer first.
  int rc;
  long late = ev("SHIM_LATE", 0);
  if (late <= 0 || !mine()) return PMPI_Iallreduce(s, r, n, t, o, c, q);
  int sz; MPI_Type_size(t, &sz);
  void* hid = malloc((size_t)n * sz + 1);
  rc = PMPI_Iallreduce(s, hid, n, t, o, c, q);
  for (int i = 0; i < MAXP; ++i)
    if (!P[i].used) { P[i].used = 1; P[i].polls = (int)(late + (seq++ % 3) * ev("SHIM_SPREAD", 0)); P[i].s = hid; P[i].r = r; P[i].n = n * sz; P[i].real = *q; return rc; }
  abort();
}
static int find(MPI_Request q) { for (int i = 0; i < MAXP; ++i) if (P[i].used && P[i].real == q) return i; return -1; }
static void deliver(int i) { memcpy(P[i].r, P[i].s, P[i].n); free((void*)P[i].s); P[i].used = 0; }
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* st)
{
  begin(q);
  int i = *q == MPI_REQUEST_NULL ? -1 : find(*q);
  if (i < 0) return PMPI_Test(q, flag, st);
  if (P[i].polls-- > 0) { *flag = 0; return MPI_SUCCESS; }
  int rc = PMPI_Test(q, flag, st);
  if (*flag) deliver(i);
  return rc;
}
int MPI_Wait(MPI_Request* q, MPI_Status* st)
{
  begin(q);
  int i = *q == MPI_REQUEST_NULL ? -1 : find(*q);
  int rc = PMPI_Wait(q, st);
  if (i >= 0) deliver(i);
  return rc;
}
int MPI_Testany(int n, MPI_Request* q, int* idx, int* flag, MPI_Status* st)
{
  for (int k = 0; k < n; ++k) {
    if (q[k] == MPI_REQUEST_NULL) continue;
    MPI_Test(&q[k], flag, st);
    if (*flag) { *idx = k; return MPI_SUCCESS; }
  }
  *flag = 0; *idx = MPI_UNDEFINED;
  return MPI_SUCCESS;
}
// ---- standard sends may block until matched
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
  return ev("SHIM_SSEND", 0) ? PMPI_Ssend(b, n, t, d, tag, c) : PMPI_Send(b, n, t, d, tag, c);
}
// ---- a rank that is slow at every collective or receive
static void slow(void) { if (ev("SHIM_SLOW_US", 0) && mine()) usleep(ev("SHIM_SLOW_US", 0)); }
int MPI_Barrier(MPI_Comm c) { slow(); return PMPI_Barrier(c); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) { slow(); return PMPI_Recv(b, n, t, s, tag, c, st); }

// ---- clocks: the SHIM_CLOCK_AT-th reading and all later ones are off by SHIM_CLOCK_BY seconds
int clock_gettime(clockid_t id, struct timespec* t)
{
  static int (*real)(clockid_t, struct timespec*);
  static long k;
  if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
  int rc = real(id, t);
  if (rc == 0 && ev("SHIM_CLOCK_BY", 0) && mine() && (id == CLOCK_REALTIME || ev("SHIM_CLOCK_ALL", 0)) && k++ >= ev("SHIM_CLOCK_AT", 0)) t->tv_sec += ev("SHIM_CLOCK_BY", 0);
  return rc;
}
// ---- files
static char  watched[256];
static long  nop[8];
static int   match(const char* p) { const char* m = getenv("SHIM_FILE"); return m && p && strstr(p, m) && mine(); }
// kinds: 0 open 1 read 2 write 3 close ; SHIM_OP names the kind, SHIM_NTH the occurrence, SHIM_ACT eio|enospc|kill, SHIM_STICKY
static int hit(int kind)
{
  static const char* nm[] = {"open", "read", "write", "close"};
  const char* o = getenv("SHIM_OP");
  long k = nop[kind]++;
  if (getenv("SHIM_COUNT")) fprintf(stderr, "shim rank %d %s %ld\n", rank_(), nm[kind], k);
  if (!o || strcmp(o, nm[kind])) return 0;
  long n = ev("SHIM_NTH", 0);
  if (k == n || (k > n && ev("SHIM_STICKY", 0))) {
    const char* a = getenv("SHIM_ACT");
    if (a && !strcmp(a, "kill")) kill(getpid(), SIGKILL);
    errno = a && !strcmp(a, "enospc") ? ENOSPC : EIO;
    return 1;
  }
  return 0;
}
#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)
static void note(int fd, const char* p) { if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = (char)match(p); }
int open(const char* p, int f, ...)
{
  REAL(int, open, const char*, int, ...);
  va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
  if (match(p) && hit(0)) return -1;
  int fd = real_open(p, f, m); note(fd, p); return fd;
}
int open64(const char* p, int f, ...)
{
  REAL(int, open64, const char*, int, ...);
  va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
  if (match(p) && hit(0)) return -1;
  int fd = real_open64(p, f, m); note(fd, p); return fd;
}
FILE* fopen(const char* p, const char* m)
{
  REAL(FILE*, fopen, const char*, const char*);
  if (match(p) && hit(0)) return NULL;
  FILE* f = real_fopen(p, m); if (f) note(fileno(f), p); return f;
}
FILE* fopen64(const char* p, const char* m)
{
  REAL(FILE*, fopen64, const char*, const char*);
  if (match(p) && hit(0)) return NULL;
  FILE* f = real_fopen64(p, m); if (f) note(fileno(f), p); return f;
}
ssize_t read(int fd, void* b, size_t n)
{
  REAL(ssize_t, read, int, void*, size_t);
  if (fd >= 0 && fd < (int)sizeof watched && watched[fd] && hit(1)) return -1;
  return real_read(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n)
{
  REAL(ssize_t, write, int, const void*, size_t);
  if (fd >= 0 && fd < (int)sizeof watched && watched[fd] && hit(2)) return -1;
  return real_write(fd, b, n);
}
int close(int fd)
{
  REAL(int, close, int);
  int w = fd >= 0 && fd < (int)sizeof watched && watched[fd];
  if (w) watched[fd] = 0;
  if (w && hit(3)) { real_close(fd); errno = ENOSPC; const char* a = getenv("SHIM_ACT"); if (!a || strcmp(a, "enospc")) errno = EIO; return -1; }
  return real_close(fd);
}

// ---- memory: the SHIM_NEWFAIL-th allocation by operator new while a watched file is open (or of SHIM_NEWSIZE bytes) fails
static int open_now(void) { for (int i = 0; i < (int)sizeof watched; ++i) if (watched[i]) return 1; return 0; }
extern void _ZSt17__throw_bad_allocv(void) __attribute__((weak));
void* _Znwm(size_t n)
{
  static long k;
  long f = ev("SHIM_NEWFAIL", -1);
  if (f >= 0 && mine() && (ev("SHIM_NEWSIZE", 0) ? ev("SHIM_NEWSIZE", 0) == (long)n : open_now()) && k++ == f) {
    void (*t)(void) = dlsym(RTLD_DEFAULT, "_ZSt17__throw_bad_allocv");
    t();
  }
  return malloc(n ? n : 1);
}
