// The simulator: forks the ranks of one run from this already-initialised
// process, owns every source of nondeterminism between them, and runs exactly
// one rank at a time, in the order given by a discrete-event queue.
//
// usage: simserver            scenario paths on stdin, one JSON result per line on stdout
//        simserver FILE       one run
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <malloc.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "proto.h"

int nimble_app_main(int, char**);
int vecred_main(int, char**);
int msg_main(int, char**);

namespace {

enum DK { D_CPU = 1, D_MSG, D_REQ, D_RDV, D_SYNC, D_YIELD, D_KILL, D_FINAL, D_START, D_NK };
const int64_t DELAY_NS[8] = {0, 2000, 10000, 50000, 300000, 2000000, 15000000, 100000000};

struct Ev { int64_t t; uint64_t seq; int type; int rank; int64_t id; };
struct EvCmp { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
enum { E_RESUME = 1, E_ARRIVE, E_COMPLETE, E_ABORT };

struct Rank {
  pid_t pid = -1; int fd = -1;
  bool alive = false, blocked = false, polling = false, in_final = false, done = false, killed_by_us = false;
  Hdr rep{}; std::string repdata;           // reply to send on resume
  int wmode = -1; std::vector<int64_t> wids; // blocked in a wait
  bool wprobe = false; int64_t pc = 0, psrc = 0, ptag = 0;
  int polls = 0;
  int64_t blocked_coll = 0;
  std::map<int64_t, int64_t> collseq;
  int rc = -1, sig = 0;
  std::string where;                        // last call, for reports
};
struct Req { int64_t id; int rank; int kind; bool done = false, blockingsend = false; int src = 0, tag = 0; std::string data; };
struct Msg { int64_t id; int64_t comm; int src, dst, tag; std::string data; int64_t sreq; bool rdv, blocking; };
struct Posted { int64_t req; int64_t comm; int src, tag; };
struct Part { bool in = false; std::vector<std::string> parts; int64_t req = 0; bool blocking = false, released = false, sync = false; };
struct Coll { int64_t comm, no; int kind, root, op, type, first; bool blocking; std::map<int, Part> p; std::map<int, std::string> created; bool made = false; };

struct Sim {
  std::vector<Rank> R;
  std::priority_queue<Ev, std::vector<Ev>, EvCmp> q;
  uint64_t evseq = 0;
  int64_t now = 0, internal = 0, nextid = 1, nextcomm = 0;
  std::map<int64_t, Req> reqs;
  std::map<int64_t, Msg> flying;
  std::vector<std::list<Msg>> unexpected;
  std::vector<std::list<Posted>> posted;
  std::map<std::tuple<int64_t, int, int>, int64_t> lastarr;
  std::map<int64_t, std::vector<int>> comms;
  std::map<std::pair<int64_t, int64_t>, Coll> colls;
  std::map<std::pair<int, int>, int64_t> dcount;
  std::map<std::tuple<int, int, int64_t>, int> over;
  std::vector<std::vector<int64_t>> decs;
  uint64_t hash = 1469598103934665603ull, shash = 1469598103934665603ull;
  int64_t nrpc = 0, nmsgs = 0, ncolls = 0, rdvs = 0, syncs = 0, delays = 0, falsepolls = 0, anysrc_multi = 0, yields = 0;
  int quiet = 0;
  std::vector<std::string> viol;      // message layer violations / deadlock / hang
  std::vector<std::string> notes;
  bool failed = false, aborting = false, stop = false;
  std::string failwhy;
  FILE* tr = nullptr;
  RankShm* shm = nullptr;

  void mix(uint64_t v, bool sched = false)
  {
    for (int i = 0; i < 8; ++i) { hash ^= (v >> (8 * i)) & 255; hash *= 1099511628211ull; }
    if (sched) { shash ^= v; shash *= 1099511628211ull; }
  }
  void mixs(const std::string& s) { for (unsigned char c : s) { hash ^= c; hash *= 1099511628211ull; } }
  static uint64_t sm(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
  int choose(int kind, int rank, int n, int pm)
  {
    int64_t seq = dcount[{kind, rank}]++;
    int v = 0;
    if (g_scn.replay) {
      auto it = over.find(std::make_tuple(kind, rank, seq));
      if (it != over.end()) v = it->second;
      if (v >= n) v = n - 1;
    } else if (pm > 0) {
      uint64_t h = sm(sm(sm(g_scn.seed * 1000003 + kind) ^ (uint64_t)rank * 7919) + (uint64_t)seq);
      if ((int)(h % 1000) < pm) v = 1 + (int)((h >> 20) % (n - 1));
    }
    if (v) { decs.push_back({kind, rank, seq, v}); }
    return v;
  }
  int64_t delay(int kind, int rank, int pm)
  {
    int v = choose(kind, rank, 8, pm);
    if (v) ++delays;
    return DELAY_NS[v];
  }
  void at(int64_t t, int type, int rank, int64_t id)
  {
    q.push({t, evseq++, type, rank, id});
    if (type != E_RESUME) ++internal;
  }
  void trace(const char* f, ...)
  {
    if (!tr) return;
    va_list ap; va_start(ap, f);
    fprintf(tr, "%12.3f us  ", now / 1000.0);
    vfprintf(tr, f, ap);
    fputc('\n', tr);
    va_end(ap);
  }
  void violation(const std::string& s)
  {
    trace("VIOLATION %s", s.c_str());
    if (viol.size() < 20) viol.push_back(s);
  }
  void resume(int r, int64_t extra = 0)
  {
    int f = (g_scn.slow_rank == r) ? g_scn.slow_factor : 1;
    at(now + 1000 * f + extra + delay(D_CPU, r, g_scn.p_cpu), E_RESUME, r, 0);
  }
  void reply(int r, int64_t a0 = 0, int64_t a1 = 0, int64_t a2 = 0, int64_t a3 = 0, std::string data = "")
  {
    Rank& k = R[r];
    k.rep = Hdr{}; k.rep.a[0] = a0; k.rep.a[1] = a1; k.rep.a[2] = a2; k.rep.a[3] = a3;
    k.repdata = std::move(data); k.rep.len = k.repdata.size();
  }

  // ---------------------------------------------------------------- processes
  void spawn()
  {
    int n = g_scn.nranks;
    R.resize(n); unexpected.resize(n); posted.resize(n);
    nextcomm = n + 1;
    std::vector<int> w; for (int i = 0; i < n; ++i) w.push_back(i);
    comms[0] = w;
    for (int i = 0; i < n; ++i) comms[1 + i] = {i};
    for (int r = 0; r < n; ++r) {
      int sv[2];
      if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(3); }
      int sz = 1 << 20;
      setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
      setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
      pid_t pid = fork();
      if (pid < 0) { perror("fork"); exit(3); }
      if (pid == 0) child(r, sv[1], sv[0]);
      close(sv[1]);
      R[r].pid = pid; R[r].fd = sv[0]; R[r].alive = true;
    }
  }
  void* keep = nullptr;
  [[noreturn]] void child(int r, int fd, int other)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    close(other);
    for (auto& k : R) if (k.fd >= 0) close(k.fd);
    if (chdir(g_scn.cwd.c_str())) _exit(96);
    int o = open(("std.out." + std::to_string(r)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    int e = open(("std.err." + std::to_string(r)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    int z = open("/dev/null", O_RDONLY);
    dup2(o, 1); dup2(e, 2); dup2(z, 0);
    close(o); close(e); close(z);
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = g_scn.cpu_limit; rl.rlim_max = g_scn.cpu_limit + 5; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 6ull << 30; setrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = rl.rlim_max = 256ull << 20; setrlimit(RLIMIT_FSIZE, &rl);
    signal(SIGPIPE, SIG_DFL);
    g_rank = r; g_shm = &shm[r];
    rank_transport_init(fd);
    std::vector<std::string> av; av.push_back(g_scn.prog);
    for (auto& a : g_scn.args) av.push_back(a);
    std::vector<char*> argv; for (auto& a : av) argv.push_back(&a[0]);
    int argc = argv.size(); argv.push_back(nullptr);
    Hdr h{}, rep; std::string d;
    h.op = OP_START;
    rpc(h, nullptr, rep, d);
    mallopt(M_PERTURB, 255);   // fresh memory is zero, freed memory is not: what a stale read finds is the same in every process
    if (g_scn.perturb) {   // other contents of fresh and freed memory, other heap layout
      mallopt(M_PERTURB, g_scn.perturb & 255);
      keep = malloc(64 + 4096 * (g_scn.perturb & 1023) + 16 * (g_scn.perturb >> 8));
      if (g_scn.perturb & 1) scramble_heap(g_scn.perturb);
    }
    io_rank_begin();
    int rc = 0;
    if (g_scn.prog == "nimble") rc = nimble_app_main(argc, argv.data());
    else if (g_scn.prog == "vecred") rc = vecred_main(argc, argv.data());
    else if (g_scn.prog == "msg") rc = msg_main(argc, argv.data());
    g_shm->main_rc = rc; g_shm->main_returned = 1;
    exit(rc);
  }
  // Fills the allocator's free lists in an order drawn from the seed, so that objects allocated one after the other
  // do not come to lie one after the other: nothing may depend on how addresses compare.
  static void scramble_heap(uint64_t x)
  {
    auto next = [&x]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
    x = x * 0x9E3779B97F4A7C15ull + 1;
    std::vector<void*> free_list;
    for (int turn = 0; turn < 16; ++turn)
      for (size_t n = 24; n < 1100; n += 16) {
        free_list.push_back(malloc(n));
        static void* volatile fence;
        fence = malloc(n);   // stays, so that neighbours are not merged
      }
    for (size_t i = free_list.size(); i > 1; --i) std::swap(free_list[i - 1], free_list[next() % i]);
    for (void* p : free_list) free(p);
  }
  bool readn(int r, void* b, size_t n)
  {
    auto* p = (char*)b;
    while (n) {
      struct pollfd pf{R[r].fd, POLLIN, 0};
      int pr = poll(&pf, 1, g_scn.wall_limit * 1000);
      if (pr == 0) { violation("hang: rank " + std::to_string(r) + " runs without end (wall limit)"); kill(R[r].pid, SIGKILL); R[r].killed_by_us = true; return false; }
      if (pr < 0 && errno == EINTR) continue;
      ssize_t k = sys_read(R[r].fd, p, n);
      if (k < 0 && errno == EINTR) continue;
      if (k <= 0) return false;
      p += k; n -= k;
    }
    return true;
  }
  void died(int r)
  {
    Rank& k = R[r];
    int st = 0;
    while (waitpid(k.pid, &st, 0) < 0 && errno == EINTR) {}
    close(k.fd); k.fd = -1; k.alive = false; k.done = true;
    if (WIFSIGNALED(st)) k.sig = WTERMSIG(st); else k.rc = WEXITSTATUS(st);
    mix(0x1000 + r); mix(k.sig * 256 + k.rc);
    trace("rank %d ends: %s %d", r, k.sig ? "signal" : "exit", k.sig ? k.sig : k.rc);
    bool bad = k.sig || k.rc;
    std::string why;
    if (k.sig == SIGXCPU) violation("hang: rank " + std::to_string(r) + " used its whole processor budget without communicating, after " + k.where);
    if (!bad && g_scn.nranks > 1) {
      bool anyinit = false;
      for (int i = 0; i < g_scn.nranks; ++i) anyinit |= shm[i].inited;
      if (shm[r].inited && !shm[r].finalized) { bad = true; why = "exit without MPI_Finalize"; }
      if (!shm[r].inited && anyinit) { bad = true; why = "exit without MPI_Init"; }
    }
    if (bad && !aborting) {
      failed = true;
      if (failwhy.empty()) failwhy = "rank " + std::to_string(r) + (why.empty() ? (k.sig ? " died of signal " + std::to_string(k.sig) : " exited with status " + std::to_string(k.rc)) : " " + why);
      schedule_abort(r);
    }
  }
  bool abort_scheduled = false;
  void schedule_abort(int r)
  {
    if (abort_scheduled) return;
    abort_scheduled = true;
    static const int64_t KD[6] = {5000, 0, 100000, 3000000, 50000000, 2000000000};
    at(now + KD[choose(D_KILL, r, 6, 700)], E_ABORT, r, 0);
  }
  void kill_all()
  {
    aborting = true;
    for (int r = 0; r < (int)R.size(); ++r) if (R[r].alive) {
      kill(R[r].pid, SIGKILL); R[r].killed_by_us = true;
      int st; while (waitpid(R[r].pid, &st, 0) < 0 && errno == EINTR) {}
      close(R[r].fd); R[r].fd = -1; R[r].alive = false; R[r].done = true;
      R[r].sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0; R[r].rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    }
  }

  // ---------------------------------------------------------------- point to point
  static bool match(int64_t c, int src, int tag, const Msg& m) { return c == m.comm && (src < 0 || src == m.src) && (tag < 0 || tag == m.tag); }
  void complete(int64_t req, int64_t extra = 0)
  {
    auto it = reqs.find(req);
    if (it == reqs.end()) return;
    int64_t d = extra + delay(D_REQ, it->second.rank, g_scn.p_req);
    at(now + 200 + d, E_COMPLETE, it->second.rank, req);
  }
  void deliver(const Msg& m, int64_t recvreq)
  {
    Req& q = reqs[recvreq];
    q.src = m.src; q.tag = m.tag; q.data = m.data;
    complete(recvreq);
    if (m.rdv) complete(m.sreq);
    trace("match: rank %d receives %zu bytes from rank %d tag %d", m.dst, m.data.size(), m.src, m.tag);
  }
  void arrive(Msg m)
  {
    auto& P = posted[m.dst];
    for (auto it = P.begin(); it != P.end(); ++it)
      if (match(it->comm, it->src, it->tag, m)) {
        int64_t rq = it->req;
        P.erase(it);
        deliver(m, rq);
        return;
      }
    int dst = m.dst;
    unexpected[dst].push_back(std::move(m));
    if (R[dst].wprobe) check_probe(dst);
  }
  bool check_probe(int r)
  {
    Rank& k = R[r];
    for (auto& m : unexpected[r]) if (match(k.pc, k.psrc, k.ptag, m)) {
      k.wprobe = false; k.blocked = false;
      reply(r, 1, m.src, m.tag, m.data.size());
      resume(r);
      return true;
    }
    return false;
  }
  // ---------------------------------------------------------------- waits
  bool satisfied(int r, int mode, const std::vector<int64_t>& ids, int64_t& cnt, std::string& data)
  {
    std::vector<int> d;
    for (size_t i = 0; i < ids.size(); ++i) { auto it = reqs.find(ids[i]); if (it == reqs.end() || it->second.done) d.push_back(i); }
    if (mode == 0 && d.size() != ids.size()) return false;
    if (d.empty()) return false;
    if (mode == 1) d.resize(1);
    cnt = d.size();
    for (int i : d) {
      Req& q = reqs[ids[i]];
      int64_t v[4] = {i, q.src, q.tag, (int64_t)q.data.size()};
      data.append((char*)v, 32); data += q.data;
    }
    std::vector<int64_t> gone; for (int i : d) gone.push_back(ids[i]);
    for (auto g : gone) reqs.erase(g);
    return true;
  }
  void check_wait(int r)
  {
    Rank& k = R[r];
    if (!k.blocked || k.wmode < 0) return;
    int64_t c = 0; std::string d;
    if (satisfied(r, k.wmode, k.wids, c, d)) {
      k.blocked = false; k.wmode = -1;
      reply(r, c, 0, 0, 0, d);
      resume(r);
    }
  }
  // ---------------------------------------------------------------- collectives
  static const char* cname(int k)
  {
    static const char* n[] = {"?", "Barrier", "Bcast", "Reduce", "Allreduce", "Gather", "Gatherv", "Scatter", "Scatterv", "Allgather", "Allgatherv", "Alltoall", "Alltoallv", "Scan", "Exscan", "Reduce_scatter", "Comm_split", "Comm_dup", "Comm_create", "Comm_free"};
    return k > 0 && k < 20 ? n[k] : "?";
  }
  static void put(std::string& s, int64_t v) { s.append((char*)&v, 8); }
  static std::string pack(const std::vector<const std::string*>& v)
  {
    std::string s; put(s, v.size());
    for (auto* p : v) { put(s, p->size()); s += *p; }
    return s;
  }
  void make_comms(Coll& c)
  {
    c.made = true;
    auto& mem = comms[c.comm];
    auto desc = [&](int64_t id, const std::vector<int>& rk) { std::string s; put(s, id); put(s, rk.size()); for (int x : rk) put(s, x); return s; };
    std::string none; put(none, -1);
    if (c.kind == C_COMM_DUP) {
      int64_t id = nextcomm++; comms[id] = mem;
      for (int r : mem) c.created[r] = desc(id, mem);
    } else if (c.kind == C_COMM_SPLIT) {
      std::map<int64_t, std::vector<std::pair<int64_t, int>>> g;
      for (size_t i = 0; i < mem.size(); ++i) {
        int64_t ck[2]; memcpy(ck, c.p[mem[i]].parts[0].data(), 16);
        if (ck[0] < 0) c.created[mem[i]] = none; else g[ck[0]].push_back({ck[1], (int)i});
      }
      for (auto& kv : g) {
        std::stable_sort(kv.second.begin(), kv.second.end());
        std::vector<int> rk; for (auto& x : kv.second) rk.push_back(mem[x.second]);
        int64_t id = nextcomm++; comms[id] = rk;
        for (int r : rk) c.created[r] = desc(id, rk);
      }
    } else {
      std::map<std::string, int64_t> ids;
      for (int r : mem) {
        auto& s = c.p[r].parts[0];
        std::vector<int> rk; for (size_t o = 0; o + 8 <= s.size(); o += 8) { int64_t v; memcpy(&v, s.data() + o, 8); rk.push_back(v); }
        if (std::find(rk.begin(), rk.end(), r) == rk.end()) { c.created[r] = none; continue; }
        if (!ids.count(s)) { ids[s] = nextcomm++; comms[ids[s]] = rk; }
        for (int x : rk) if (c.p[x].parts[0] != s) violation("Comm_create: members disagree on the group");
        c.created[r] = desc(ids[s], rk);
      }
    }
  }
  std::string coll_result(Coll& c, int r)
  {
    auto& mem = comms[c.comm];
    int me = std::find(mem.begin(), mem.end(), r) - mem.begin();
    int rootw = (c.root >= 0 && c.root < (int)mem.size()) ? mem[c.root] : mem[0];
    static const std::string empty;
    std::vector<const std::string*> v;
    switch (c.kind) {
      case C_BCAST: if (r != rootw) v.push_back(c.p[rootw].parts.empty() ? &empty : &c.p[rootw].parts[0]); break;
      case C_REDUCE: case C_GATHER: case C_GATHERV:
        if (r == rootw) for (int x : mem) v.push_back(c.p[x].parts.empty() ? &empty : &c.p[x].parts[0]);
        break;
      case C_ALLREDUCE: case C_ALLGATHER: case C_ALLGATHERV: case C_REDUCE_SCATTER: case C_SCAN: case C_EXSCAN:
        for (int x : mem) v.push_back(c.p[x].in && !c.p[x].parts.empty() ? &c.p[x].parts[0] : (c.kind == C_SCAN || c.kind == C_EXSCAN ? &c.p[r].parts[0] : &empty));
        break;
      case C_SCATTER: case C_SCATTERV: v.push_back((int)c.p[rootw].parts.size() > me ? &c.p[rootw].parts[me] : &empty); break;
      case C_ALLTOALL: case C_ALLTOALLV: for (int x : mem) v.push_back((int)c.p[x].parts.size() > me ? &c.p[x].parts[me] : &empty); break;
      case C_COMM_SPLIT: case C_COMM_DUP: case C_COMM_CREATE: return c.created[r];
    }
    return pack(v);
  }
  void advance_coll(Coll& c)
  {
    auto& mem = comms[c.comm];
    size_t n = mem.size();
    bool all = c.p.size() == n;
    int rootw = (c.root >= 0 && c.root < (int)n) ? mem[c.root] : mem[0];
    if (all && !c.made && (c.kind == C_COMM_SPLIT || c.kind == C_COMM_DUP || c.kind == C_COMM_CREATE)) make_comms(c);
    for (size_t i = 0; i < n; ++i) {
      int r = mem[i];
      auto it = c.p.find(r);
      if (it == c.p.end() || it->second.released) continue;
      Part& P = it->second;
      bool ok = all;
      if (!all && !P.sync) switch (c.kind) {
        case C_BCAST: case C_SCATTER: case C_SCATTERV: ok = c.p.count(rootw); break;
        case C_REDUCE: case C_GATHER: case C_GATHERV: ok = r != rootw; break;
        case C_SCAN: case C_EXSCAN: ok = true; for (size_t j = 0; j < i; ++j) ok &= c.p.count(mem[j]); break;
        case C_COMM_FREE: ok = true; break;
      }
      if (!ok) continue;
      P.released = true;
      std::string d = coll_result(c, r);
      if (P.blocking) {
        R[r].blocked = false; R[r].blocked_coll = 0;
        reply(r, 0, 0, 0, 0, d);
        resume(r, delay(D_REQ, r, g_scn.p_req));
      } else {
        reqs[P.req].data = d;
        complete(P.req);
      }
    }
    bool fin = all;
    for (auto& x : c.p) fin &= x.second.released;
    if (fin) colls.erase({c.comm, c.no});
  }

  // ---------------------------------------------------------------- one request
  void handle(int r, Hdr& h, std::string& pl)
  {
    Rank& k = R[r];
    ++nrpc;
    bool poll = false;
    switch (h.op) {
      case OP_START: case OP_INIT: reply(r); resume(r); k.where = h.op == OP_INIT ? "Init" : "start"; break;
      case OP_YIELD: {
        ++yields;
        reply(r);
        int64_t ex = h.a[0] >= 1000 ? (h.a[0] - 1000) * 1000000 : 0;
        if (h.a[0] == 3) poll = true;
        resume(r, ex + delay(D_YIELD, r, g_scn.p_yield));
        break;
      }
      case OP_NOTE: notes.push_back(std::to_string(r) + " " + pl); reply(r); resume(r); break;
      case OP_USAGE: violation(pl.compare(0, 9, "internal:") ? "usage: rank " + std::to_string(r) + ": " + pl : pl); reply(r); resume(r); break;
      case OP_ABORT:
        k.where = "Abort";
        trace("rank %d calls MPI_Abort(%ld)", r, (long)h.a[0]);
        failed = true; if (failwhy.empty()) failwhy = "rank " + std::to_string(r) + " called MPI_Abort";
        k.blocked = true; schedule_abort(r);
        break;
      case OP_FINALIZE: {
        k.where = "Finalize";
        if (h.a[0]) violation("usage: rank " + std::to_string(r) + " finalizes with " + std::to_string(h.a[0]) + " communication requests never completed");
        k.in_final = true;
        bool early = choose(D_FINAL, r, 2, g_scn.p_sync) == 1;
        reply(r);
        if (early) { resume(r); k.in_final = false; break; }
        k.blocked = true;
        // released when every rank still alive has finalized; a dead one never will
        finals++;
        check_final();
        break;
      }
      case OP_SEND: {
        ++nmsgs;
        Msg m; m.id = nextid++; m.comm = h.a[0]; m.src = r; m.dst = h.a[1]; m.tag = h.a[2]; m.data = pl;
        m.blocking = h.a[3] & 1;
        bool rdv = (h.a[3] & 2) || (!(h.a[3] & 8) && choose(D_RDV, r, 2, g_scn.p_rdv));
        if (rdv) ++rdvs;
        if (h.a[3] & 4) {
          bool have = false;
          for (auto& p : posted[m.dst]) have |= match(p.comm, p.src, p.tag, m);
          if (!have) violation("usage: rank " + std::to_string(r) + " ready-sends to rank " + std::to_string(m.dst) + " before the receive is posted");
        }
        k.where = "send to " + std::to_string(m.dst) + " tag " + std::to_string(m.tag);
        Req q; q.id = nextid++; q.rank = r; q.kind = 1; q.blockingsend = m.blocking && rdv;
        m.sreq = q.id; m.rdv = rdv;
        reqs[q.id] = q;
        int64_t t = now + 1500 + delay(D_MSG, r, g_scn.p_msg);
        auto& la = lastarr[std::make_tuple(m.comm, m.src, m.dst)];
        if (t < la) t = la;
        la = t;
        at(t, E_ARRIVE, m.dst, m.id);
        flying[m.id] = m;
        reply(r, q.id);
        if (m.blocking) {
          if (rdv) { k.blocked = true; k.wmode = -1; }
          else { reqs.erase(q.id); resume(r); }
        } else {
          if (!rdv) complete(q.id);
          resume(r);
        }
        break;
      }
      case OP_RECV: {
        Req q; q.id = nextid++; q.rank = r; q.kind = 2;
        reqs[q.id] = q;
        k.where = "receive from " + std::to_string(h.a[1]) + " tag " + std::to_string(h.a[2]);
        bool got = false;
        if (h.a[1] < 0) { std::set<int> srcs; for (auto& m : unexpected[r]) if (match(h.a[0], -1, h.a[2], m)) srcs.insert(m.src); if (srcs.size() > 1) ++anysrc_multi; }
        for (auto it = unexpected[r].begin(); it != unexpected[r].end(); ++it)
          if (match(h.a[0], h.a[1], h.a[2], *it)) { Msg m = *it; unexpected[r].erase(it); deliver(m, q.id); got = true; break; }
        if (!got) posted[r].push_back({q.id, h.a[0], (int)h.a[1], (int)h.a[2]});
        reply(r, q.id);
        resume(r);
        break;
      }
      case OP_PROBE: {
        k.pc = h.a[0]; k.psrc = h.a[1]; k.ptag = h.a[2];
        k.where = "probe";
        if (h.a[3]) { k.wprobe = true; k.blocked = true; check_probe(r); }
        else {
          bool f = false;
          for (auto& m : unexpected[r]) if (match(k.pc, k.psrc, k.ptag, m)) { reply(r, 1, m.src, m.tag, m.data.size()); f = true; break; }
          if (!f) { reply(r, 0); poll = true; }
          resume(r, f ? 0 : backoff(k));
        }
        break;
      }
      case OP_COLL: {
        ++ncolls;
        int64_t comm = h.a[0];
        auto& mem = comms[comm];
        int64_t no = k.collseq[comm]++;
        k.where = std::string(cname(h.a[1])) + " #" + std::to_string(no) + " on communicator " + std::to_string(comm);
        if (std::find(mem.begin(), mem.end(), r) == mem.end()) { violation("usage: collective on a communicator the rank is not a member of"); stop = true; break; }
        Coll& c = colls[{comm, no}];
        if (c.p.empty()) { c.comm = comm; c.no = no; c.kind = h.a[1]; c.root = h.a[2]; c.op = h.a[3]; c.type = h.a[4]; c.blocking = h.a[5]; c.first = r; }
        else if (c.kind != h.a[1] || c.root != h.a[2] || c.op != h.a[3] || c.type != h.a[4] || c.blocking != (bool)h.a[5]) {
          std::string s = "collective mismatch: rank " + std::to_string(c.first) + " calls " + cname(c.kind) + " (root " + std::to_string(c.root) + ", op " + std::to_string(c.op) + ", type " + std::to_string(c.type) + (c.blocking ? "" : ", nonblocking") + ") where rank " + std::to_string(r) + " calls " + cname(h.a[1]) + " (root " + std::to_string(h.a[2]) + ", op " + std::to_string(h.a[3]) + ", type " + std::to_string(h.a[4]) + (h.a[5] ? "" : ", nonblocking") + ")";
          violation(s); stop = true; break;
        }
        Part P; P.in = true; P.blocking = h.a[5];
        P.sync = choose(D_SYNC, r, 2, g_scn.p_sync);
        if (P.sync) ++syncs;
        size_t o = 0; int64_t np = 0;
        auto g = [&]() { int64_t v = 0; memcpy(&v, pl.data() + o, 8); o += 8; return v; };
        np = g();
        for (int64_t i = 0; i < np; ++i) { int64_t n = g(); P.parts.push_back(pl.substr(o, n)); o += n; }
        if (P.blocking) { k.blocked = true; k.blocked_coll = 1; }
        else {
          Req q; q.id = nextid++; q.rank = r; q.kind = 3; reqs[q.id] = q; P.req = q.id;
          reply(r, q.id); resume(r);
        }
        c.p[r] = P;
        advance_coll(c);
        break;
      }
      case OP_WAIT: case OP_TEST: {
        std::vector<int64_t> ids(h.a[1]);
        memcpy(ids.data(), pl.data(), pl.size());
        int64_t cnt = 0; std::string d;
        bool ok = satisfied(r, h.a[0], ids, cnt, d);
        if (ok) { reply(r, cnt, 0, 0, 0, d); resume(r); }
        else if (h.op == OP_TEST) { reply(r, 0); poll = true; resume(r, backoff(k)); if (k.polls == 1) k.where += " (polling)"; }
        else { k.blocked = true; k.wmode = h.a[0]; k.wids = ids; }
        break;
      }
      case OP_REQFREE: {
        auto it = reqs.find(h.a[0]);
        reply(r, it == reqs.end() || it->second.done);
        resume(r);
        if (h.a[1]) return;   // only asked whether it is complete: neither progress nor the lack of it
        break;
      }
      default: violation("internal: unknown request"); stop = true;
    }
    k.polling = poll;
    if (poll) { ++falsepolls; ++k.polls; ++quiet; }
    else { k.polls = 0; quiet = 0; }
  }
  int finals = 0;
  void check_final()
  {
    // Finalize is collective: it may wait for every rank of the job
    int n = 0;
    for (auto& k : R) n += (k.in_final || k.done || shm[&k - &R[0]].finalized);
    bool dead = false;
    for (int i = 0; i < (int)R.size(); ++i) dead |= R[i].done && !shm[i].finalized;
    if (n < (int)R.size() || dead) return;
    for (int i = 0; i < (int)R.size(); ++i) if (R[i].in_final) { R[i].in_final = false; R[i].blocked = false; shm[i].finalized = 1; resume(i); }
  }
  int64_t backoff(Rank& k)
  {
    double b = 500;
    for (int i = 0; i < k.polls && b < 4e7; ++i) b *= 1.5;
    return (int64_t)b;
  }
  void step_rank(int r)
  {
    Rank& k = R[r];
    if (!k.alive) return;
    k.rep.a[7] = now;
    std::string out((char*)&k.rep, sizeof(Hdr));
    out += k.repdata;
    const char* p = out.data(); size_t n = out.size();
    while (n) {
      ssize_t w = send(k.fd, p, n, MSG_NOSIGNAL);
      if (w < 0 && errno == EINTR) continue;
      if (w <= 0) { died(r); return; }
      p += w; n -= w;
    }
    Hdr h;
    if (!readn(r, &h, sizeof h)) { died(r); check_final(); return; }
    std::string pl(h.len, 0);
    if (h.len && !readn(r, &pl[0], h.len)) { died(r); check_final(); return; }
    mix(((uint64_t)r << 32) | h.op, true); for (int i = 0; i < 6; ++i) if (!(h.op == OP_WAIT || h.op == OP_TEST || h.op == OP_REQFREE)) mix(h.a[i]);
    mix(now);
    if (h.op != OP_WAIT && h.op != OP_TEST && h.op != OP_REQFREE) mixs(pl);
    for (auto& f : g_scn.killrpc)
      if (f.first == r && f.second == (int64_t)shm[r].nrpc) {
        shm[r].fired_kill++;
        trace("rank %d is killed at request %u", r, shm[r].nrpc);
        kill(k.pid, SIGKILL);
        died(r);
        check_final();
        return;
      }
    static const char* on[] = {"?", "start", "Init", "Finalize", "Abort", "send", "recv", "probe", "collective", "wait", "test", "reqfree", "yield", "usage", "note", "poll"};
    if (tr) trace("rank %d: %s %s comm %ld a1 %ld a2 %ld (%u bytes)", r, on[h.op < 16 ? h.op : 0], h.op == OP_COLL ? cname(h.a[1]) : "", (long)h.a[0], (long)h.a[1], (long)h.a[2], h.len);
    handle(r, h, pl);
  }
  void run()
  {
    spawn();
    for (auto& d : g_scn.dec) over[std::make_tuple((int)d[0], (int)d[1], d[2])] = d[3];
    // the ranks are all waiting in their START request: read those first
    for (int r = 0; r < (int)R.size(); ++r) {
      Hdr h;
      if (!readn(r, &h, sizeof h)) { died(r); continue; }
      reply(r);
      at(DELAY_NS[choose(D_START, r, 8, g_scn.p_cpu)], E_RESUME, r, 0);
    }
    while (!stop) {
      bool live = false;
      for (auto& k : R) live |= k.alive;
      if (!live) break;
      if (q.empty()) {
        std::string s = "deadlock:";
        for (int r = 0; r < (int)R.size(); ++r)
          s += " rank " + std::to_string(r) + (R[r].alive ? " blocked in " + R[r].where : std::string(" ended")) + ";";
        violation(s);
        break;
      }
      if (nrpc > g_scn.rpc_limit) { violation("livelock: " + std::to_string(nrpc) + " communication steps without an end"); break; }
      if (quiet > 300 * (int)R.size() && internal == 0) {
        bool stuck = true;
        for (auto& k : R) if (k.alive && !k.blocked && !k.polling) stuck = false;
        if (stuck) {
          std::string s = "livelock:";
          for (int r = 0; r < (int)R.size(); ++r)
            s += " rank " + std::to_string(r) + (R[r].alive ? (R[r].blocked ? " blocked in " : " polling ") + R[r].where : std::string(" ended")) + ";";
          violation(s);
          break;
        }
      }
      Ev e = q.top(); q.pop();
      if (e.type != E_RESUME) --internal;
      now = e.t;
      switch (e.type) {
        case E_RESUME: step_rank(e.rank); break;
        case E_ARRIVE: { quiet = 0; Msg m = flying[e.id]; flying.erase(e.id); arrive(std::move(m)); break; }
        case E_COMPLETE: {
          quiet = 0;
          auto it = reqs.find(e.id);
          if (it == reqs.end()) break;
          it->second.done = true;
          if (it->second.blockingsend) { int r = it->second.rank; reqs.erase(it); R[r].blocked = false; reply(r, 0); resume(r); }
          else check_wait(e.rank);
          break;
        }
        case E_ABORT: trace("launcher kills the remaining ranks"); kill_all(); break;
      }
    }
    kill_all();
    if (viol.empty() && !failed) {
      for (int r = 0; r < (int)R.size(); ++r)
        for (auto& m : unexpected[r]) violation("usage: message from rank " + std::to_string(m.src) + " to rank " + std::to_string(m.dst) + " tag " + std::to_string(m.tag) + " was never received");
      for (auto& f : flying) violation("usage: message from rank " + std::to_string(f.second.src) + " to rank " + std::to_string(f.second.dst) + " was never received");
    }
  }
};

std::string jesc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

int g_iolog = 0;
bool parse(const std::string& path)
{
  g_scn = Scenario{};
  g_iolog = 0;
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string k; s >> k;
    if (k == "cwd") { s >> std::ws; std::getline(s, g_scn.cwd); }
    else if (k == "prog") s >> g_scn.prog;
    else if (k == "nranks") s >> g_scn.nranks;
    else if (k == "arg") { std::string a; s >> std::ws; std::getline(s, a); g_scn.args.push_back(a); }
    else if (k == "seed") s >> g_scn.seed;
    else if (k == "replay") s >> g_scn.replay;
    else if (k == "profile") s >> g_scn.p_cpu >> g_scn.p_msg >> g_scn.p_req >> g_scn.p_rdv >> g_scn.p_sync >> g_scn.p_yield;
    else if (k == "slow") s >> g_scn.slow_rank >> g_scn.slow_factor;
    else if (k == "fold") s >> g_scn.fold;
    else if (k == "poison") s >> g_scn.poison;
    else if (k == "perturb") s >> g_scn.perturb;
    else if (k == "iofault") { IoFault x{}; s >> x.rank >> x.nth >> x.kind >> x.sticky; g_scn.iof.push_back(x); }
    else if (k == "allocfault") { int r, st, md; int64_t n; s >> r >> n >> st >> md; g_scn.allocf.push_back({r, n}); g_scn.alloc_sticky.push_back(st); g_scn.allocf_mode.push_back(md); }
    else if (k == "killrpc") { int r; int64_t n; s >> r >> n; g_scn.killrpc.push_back({r, n}); }
    else if (k == "clock") { ClockPlan c; int nj; s >> c.base >> c.drift >> c.freeze >> nj; for (int i = 0; i < nj; ++i) { int64_t a; double b; s >> a >> b; c.jumps.push_back({a, b}); } g_scn.clocks.push_back(c); }
    else if (k == "rpclimit") s >> g_scn.rpc_limit;
    else if (k == "cpulimit") s >> g_scn.cpu_limit;
    else if (k == "walllimit") s >> g_scn.wall_limit;
    else if (k == "trace") s >> g_scn.trace;
    else if (k == "iolog") s >> g_iolog;
    else if (k == "meter") s >> g_scn.meter;
    else if (k == "dec") { std::vector<int64_t> d(4); for (auto& x : d) s >> x; g_scn.dec.push_back(d); }
  }
  return g_scn.nranks > 0 && g_scn.nranks <= 256 && !g_scn.cwd.empty();
}

std::string one(const std::string& path)
{
  if (!parse(path)) return "{\"error\":\"bad scenario\"}";
  Sim S;
  size_t bytes = sizeof(RankShm) * g_scn.nranks;
  S.shm = (RankShm*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (g_scn.trace) S.tr = fopen((g_scn.cwd + "/std.trace").c_str(), "w");
  S.run();
  if (S.tr) fclose(S.tr);
  std::ostringstream o;
  bool ok = !S.failed && S.viol.empty();
  for (auto& k : S.R) ok &= k.rc == 0 && !k.sig;
  o << "{\"ok\":" << (ok ? "true" : "false") << ",\"failed\":" << (S.failed ? "true" : "false") << ",\"why\":\"" << jesc(S.failwhy) << "\",\"hash\":\"" << std::hex << S.hash
    << "\",\"sched\":\"" << S.shash << std::dec << "\",\"simns\":" << S.now << ",\"rpcs\":" << S.nrpc << ",\"msgs\":" << S.nmsgs << ",\"colls\":" << S.ncolls
    << ",\"rdv\":" << S.rdvs << ",\"sync\":" << S.syncs << ",\"delays\":" << S.delays << ",\"falsepolls\":" << S.falsepolls << ",\"anysrc\":" << S.anysrc_multi << ",\"yields\":" << S.yields;
  o << ",\"viol\":[";
  for (size_t i = 0; i < S.viol.size(); ++i) o << (i ? "," : "") << '"' << jesc(S.viol[i]) << '"';
  o << "],\"notes\":[";
  for (size_t i = 0; i < S.notes.size(); ++i) o << (i ? "," : "") << '"' << jesc(S.notes[i]) << '"';
  o << "],\"dec\":[";
  for (size_t i = 0; i < S.decs.size(); ++i) o << (i ? "," : "") << "[" << S.decs[i][0] << "," << S.decs[i][1] << "," << S.decs[i][2] << "," << S.decs[i][3] << "]";
  o << "],\"ranks\":[";
  for (int r = 0; r < g_scn.nranks; ++r) {
    RankShm& h = S.shm[r];
    o << (r ? "," : "") << "{\"rc\":" << S.R[r].rc << ",\"sig\":" << S.R[r].sig << ",\"killed\":" << (S.R[r].killed_by_us ? 1 : 0) << ",\"nio\":" << h.nio << ",\"nrpc\":" << h.nrpc << ",\"ncoll\":" << h.ncoll
      << ",\"nalloc\":" << h.nalloc << ",\"nallocx\":" << h.nallocx << ",\"nclock\":" << h.nclock << ",\"fio\":" << h.fired_io << ",\"falloc\":" << h.fired_alloc << ",\"fclock\":" << h.fired_clock << ",\"fkill\":" << h.fired_kill << ",\"absorbed\":" << h.absorbed << ",\"closes\":[" << h.closes[0] << "," << h.closes[1] << "," << h.closes[2] << "," << h.closes[3] << "," << h.closes[4] << "," << h.closes[5] << "]"
      << ",\"inited\":" << h.inited << ",\"finalized\":" << h.finalized << ",\"main_rc\":" << (h.main_returned ? h.main_rc : -999);
    if (g_iolog) {
      o << ",\"io\":[";
      for (uint32_t i = 0; i < h.nio && i < (uint32_t)MAXIO; ++i) {
        IoEntry& e = h.io[i];
        o << (i ? "," : "") << "[" << (int)e.kind << "," << (int)e.cls << "," << (int)e.wr << "," << (int)e.fault << "," << e.rpc << "," << e.colls << "," << e.numrecs << "," << e.bytes << "]";
      }
      o << "]";
    }
    if (g_scn.meter) {
      o << ",\"nmeter\":" << h.nmeter << ",\"meter\":[";
      for (uint32_t i = 0; i < h.nmeter && i < (uint32_t)MAXMETER; ++i) o << (i ? "," : "") << "[" << (h.meter[i] & 0xffffffffffffull) << "," << (h.meter[i] >> 48 & 255) << "," << (h.meter[i] >> 56) << "]";
      o << "]";
    }
    o << "}";
  }
  o << "]}";
  munmap(S.shm, bytes);
  return o.str();
}

}  // namespace

int main(int argc, char** argv)
{
  if (!getenv("SIM_NOASLR_DONE")) {
    setenv("SIM_NOASLR_DONE", "1", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    setenv("OMP_NUM_THREADS", "1", 1);
    setenv("OMPI_MCA_btl", "self", 1);
    setenv("HDF5_USE_FILE_LOCKING", "FALSE", 1);
    int p = personality(0xffffffff);
    if (p >= 0 && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  signal(SIGPIPE, SIG_IGN);
  if (argc > 1) { printf("%s\n", one(argv[1]).c_str()); return 0; }
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    std::string r = one(line);
    printf("%s\n", r.c_str());
    fflush(stdout);
  }
  return 0;
}
