// Rank-side MPI: every call becomes an RPC to the simulator, which owns all
// message, collective and request state and decides when the call returns.
// Only the data symbols behind the predefined handles come from the real
// library; none of its code is ever entered.
#define OMPI_SKIP_MPICXX 1
#include <malloc.h>
#include <sys/uio.h>
#include <mpi.h>

#include <errno.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <algorithm>
#include <complex>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "proto.h"

extern "C" double sim_wtime();

namespace {

int g_sock = -1;

struct SimComm {
  int64_t id;
  std::vector<int> ranks;   // world ranks
  int me;
  std::map<int, void*> attrs;
  bool freed = false;
};
struct SimGroup { std::vector<int> ranks; };
struct SimType  { int size; MPI_Datatype base; };
struct SimOp    { MPI_User_function* fn; int commute; };

enum RKind { R_SEND, R_RECV, R_COLL, R_NULLPROC, R_PERSIST };
struct CollPost {
  int kind, root, n, me;
  void* rbuf; const void* sbuf; bool inplace;
  int64_t rcount;           // elements
  MPI_Datatype type; MPI_Op op; int esz;
  std::vector<int> counts, displs; int resz;
};
struct SimReq {
  int64_t id; RKind kind;
  void* rbuf = nullptr; int64_t cap = 0; bool poisoned = false; std::string saved; std::vector<std::string> rsaved;
  const void* sbuf = nullptr; int64_t slen = 0; uint64_t shash = 0;
  CollPost coll; SimComm* comm = nullptr;
  std::vector<std::pair<const char*, int64_t>> sregions, rregions;
  std::function<void(MPI_Request*)> start;   // persistent request: what MPI_Start does
  MPI_Request inner = MPI_REQUEST_NULL;      // and the transfer it has started
};

SimComm* g_world = nullptr;
SimComm* g_self  = nullptr;
bool g_inited = false, g_finalized = false;
std::map<int64_t, SimReq*> g_reqs;

struct KeyVal { MPI_Comm_delete_attr_function* del; MPI_Comm_copy_attr_function* copy; void* extra; };
std::map<int, KeyVal> g_keyvals;
int g_next_key = 1000;
std::vector<std::pair<SimComm*, int>> g_attr_order;

SimComm* C(MPI_Comm c)
{
  if (c == MPI_COMM_WORLD) return g_world;
  if (c == MPI_COMM_SELF) return g_self;
  return reinterpret_cast<SimComm*>(c);
}
MPI_Comm H(SimComm* c)
{
  if (!c) return MPI_COMM_NULL;
  if (c == g_world) return MPI_COMM_WORLD;
  if (c == g_self) return MPI_COMM_SELF;
  return reinterpret_cast<MPI_Comm>(c);
}

struct TInfo { MPI_Datatype t; int code; int size; };
enum { T_CHAR = 1, T_SCHAR, T_UCHAR, T_SHORT, T_USHORT, T_INT, T_UINT, T_LONG, T_ULONG, T_LL, T_ULL, T_FLOAT, T_DOUBLE, T_LDOUBLE,
       T_BOOL, T_BYTE, T_DINT, T_FINT, T_2INT, T_LINT, T_ZF, T_ZD };
const std::vector<TInfo>& types()
{
  static const std::vector<TInfo> v = {
    {MPI_DOUBLE, T_DOUBLE, 8}, {MPI_INT, T_INT, 4}, {MPI_CHAR, T_CHAR, 1}, {MPI_BYTE, T_BYTE, 1}, {MPI_FLOAT, T_FLOAT, 4},
    {MPI_LONG, T_LONG, 8}, {MPI_UNSIGNED, T_UINT, 4}, {MPI_UNSIGNED_LONG, T_ULONG, 8}, {MPI_LONG_LONG_INT, T_LL, 8},
    {MPI_LONG_LONG, T_LL, 8}, {MPI_UNSIGNED_LONG_LONG, T_ULL, 8}, {MPI_SIGNED_CHAR, T_SCHAR, 1}, {MPI_UNSIGNED_CHAR, T_UCHAR, 1},
    {MPI_SHORT, T_SHORT, 2}, {MPI_UNSIGNED_SHORT, T_USHORT, 2}, {MPI_LONG_DOUBLE, T_LDOUBLE, 16}, {MPI_C_BOOL, T_BOOL, 1},
    {MPI_CXX_BOOL, T_BOOL, 1}, {MPI_INT8_T, T_SCHAR, 1}, {MPI_UINT8_T, T_UCHAR, 1}, {MPI_INT16_T, T_SHORT, 2},
    {MPI_UINT16_T, T_USHORT, 2}, {MPI_INT32_T, T_INT, 4}, {MPI_UINT32_T, T_UINT, 4}, {MPI_INT64_T, T_LONG, 8},
    {MPI_UINT64_T, T_ULONG, 8}, {MPI_DOUBLE_INT, T_DINT, 16}, {MPI_FLOAT_INT, T_FINT, 8}, {MPI_2INT, T_2INT, 8},
    {MPI_LONG_INT, T_LINT, 16}, {MPI_PACKED, T_BYTE, 1}, {MPI_AINT, T_LONG, 8}, {MPI_OFFSET, T_LL, 8}, {MPI_COUNT, T_LL, 8},
    {MPI_C_FLOAT_COMPLEX, T_ZF, 8}, {MPI_C_DOUBLE_COMPLEX, T_ZD, 16}, {MPI_CXX_FLOAT_COMPLEX, T_ZF, 8}, {MPI_CXX_DOUBLE_COMPLEX, T_ZD, 16},
    {MPI_WCHAR, T_INT, 4}};
  return v;
}
const TInfo* basic(MPI_Datatype t)
{
  for (auto& x : types()) if (x.t == t) return &x;
  return nullptr;
}
int tsize(MPI_Datatype t)
{
  if (auto b = basic(t)) return b->size;
  return reinterpret_cast<SimType*>(t)->size;
}
MPI_Datatype tbase(MPI_Datatype t)
{
  if (basic(t)) return t;
  return reinterpret_cast<SimType*>(t)->base;
}
int tcode(MPI_Datatype t) { auto b = basic(tbase(t)); return b ? b->code : 0; }

int opcode(MPI_Op o)
{
  static const std::vector<MPI_Op> v = {MPI_SUM, MPI_MAX, MPI_MIN, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_LXOR, MPI_BXOR,
                                        MPI_MINLOC, MPI_MAXLOC, MPI_REPLACE};
  for (size_t i = 0; i < v.size(); ++i) if (v[i] == o) return i + 1;
  return 100;
}

template <class T> void fold_arith(int op, T* acc, const T* x, int64_t n)
{
  for (int64_t i = 0; i < n; ++i) switch (op) {
    case 1: acc[i] = acc[i] + x[i]; break;
    case 2: acc[i] = std::max(acc[i], x[i]); break;
    case 3: acc[i] = std::min(acc[i], x[i]); break;
    case 4: acc[i] = acc[i] * x[i]; break;
    case 5: acc[i] = acc[i] && x[i]; break;
    case 7: acc[i] = acc[i] || x[i]; break;
    case 9: acc[i] = !acc[i] != !x[i]; break;
    case 13: acc[i] = x[i]; break;
  }
}
template <class T> void fold_bits(int op, T* acc, const T* x, int64_t n)
{
  for (int64_t i = 0; i < n; ++i) switch (op) {
    case 6: acc[i] &= x[i]; break;
    case 8: acc[i] |= x[i]; break;
    case 10: acc[i] ^= x[i]; break;
  }
}
template <class T> void fold_int(int op, void* a, const void* x, int64_t n)
{
  if (op == 6 || op == 8 || op == 10) fold_bits(op, (T*)a, (const T*)x, n);
  else fold_arith(op, (T*)a, (const T*)x, n);
}
template <class V> struct VI { V v; int i; };
template <class V> void fold_loc(int op, void* a_, const void* x_, int64_t n)
{
  auto* a = (VI<V>*)a_; auto* x = (const VI<V>*)x_;
  for (int64_t k = 0; k < n; ++k) {
    bool take = op == 11 ? (x[k].v < a[k].v) : (x[k].v > a[k].v);
    if (take) a[k] = x[k];
    else if (x[k].v == a[k].v && x[k].i < a[k].i) a[k].i = x[k].i;
  }
}
// acc := acc op x  (left fold in rank order)
void fold(MPI_Op op, MPI_Datatype t, void* acc, void* x, int64_t nelem)
{
  int oc = opcode(op);
  int64_t n = nelem * (tsize(t) / std::max(1, tsize(tbase(t))));
  if (oc == 100) {
    // user function computes inoutvec = invec op inoutvec
    auto* u = reinterpret_cast<SimOp*>(op);
    int len = (int)nelem;
    std::string tmp((char*)x, nelem * tsize(t));
    u->fn(acc, &tmp[0], &len, &t);
    memcpy(acc, tmp.data(), tmp.size());
    return;
  }
  switch (tcode(t)) {
    case T_CHAR: case T_SCHAR: fold_int<signed char>(oc, acc, x, n); break;
    case T_UCHAR: case T_BYTE: fold_int<unsigned char>(oc, acc, x, n); break;
    case T_SHORT: fold_int<short>(oc, acc, x, n); break;
    case T_USHORT: fold_int<unsigned short>(oc, acc, x, n); break;
    case T_INT: fold_int<int>(oc, acc, x, n); break;
    case T_UINT: fold_int<unsigned>(oc, acc, x, n); break;
    case T_LONG: fold_int<long>(oc, acc, x, n); break;
    case T_ULONG: fold_int<unsigned long>(oc, acc, x, n); break;
    case T_LL: fold_int<long long>(oc, acc, x, n); break;
    case T_ULL: fold_int<unsigned long long>(oc, acc, x, n); break;
    case T_FLOAT: fold_arith(oc, (float*)acc, (float*)x, n); break;
    case T_DOUBLE: fold_arith(oc, (double*)acc, (double*)x, n); break;
    case T_LDOUBLE: fold_arith(oc, (long double*)acc, (long double*)x, n); break;
    case T_BOOL: for (int64_t i = 0; i < n; ++i) { auto* a = (unsigned char*)acc; auto* b = (unsigned char*)x;
        if (oc == 5 || oc == 6 || oc == 3) a[i] = a[i] && b[i]; else if (oc == 9 || oc == 10) a[i] = !a[i] != !b[i]; else a[i] = a[i] || b[i]; } break;
    case T_ZF: for (int64_t i = 0; i < n; ++i) { auto* a = (std::complex<float>*)acc; auto* b = (std::complex<float>*)x; if (oc == 4) a[i] *= b[i]; else a[i] += b[i]; } break;
    case T_ZD: for (int64_t i = 0; i < n; ++i) { auto* a = (std::complex<double>*)acc; auto* b = (std::complex<double>*)x; if (oc == 4) a[i] *= b[i]; else a[i] += b[i]; } break;
    case T_DINT: fold_loc<double>(oc, acc, x, n); break;
    case T_FINT: fold_loc<float>(oc, acc, x, n); break;
    case T_2INT: fold_loc<int>(oc, acc, x, n); break;
    case T_LINT: fold_loc<long>(oc, acc, x, n); break;
    default: sim_usage("internal: reduction over a datatype that is not simulated");
  }
}

uint64_t fnv(const void* p, int64_t n, uint64_t h = 1469598103934665603ull)
{
  auto* c = (const unsigned char*)p;
  for (int64_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}

void xwrite(const void* b, size_t n)
{
  auto* p = (const char*)b;
  while (n) {
    ssize_t r = sys_write(g_sock, p, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) _exit(97);
    p += r; n -= r;
  }
}
void xread(void* b, size_t n)
{
  auto* p = (char*)b;
  while (n) {
    ssize_t r = sys_read(g_sock, p, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) _exit(97);
    p += r; n -= r;
  }
}

void put64(std::string& s, int64_t v) { s.append((const char*)&v, 8); }
int64_t get64(const std::string& s, size_t& o) { int64_t v = 0; if (o + 8 <= s.size()) memcpy(&v, s.data() + o, 8); o += 8; return v; }

}  // namespace

void rank_transport_init(int fd) { g_sock = fd; }

void rpc(const Hdr& h, const void* payload, Hdr& rep, std::string& data)
{
  SimGuard g;
  if (h.op != OP_START) { g_shm->nrpc++; sim_meter(); }
  std::string buf;
  buf.reserve(sizeof h + h.len);
  buf.append((const char*)&h, sizeof h);
  if (h.len) buf.append((const char*)payload, h.len);
  xwrite(buf.data(), buf.size());
  xread(&rep, sizeof rep);
  data.resize(rep.len);
  if (rep.len) xread(&data[0], rep.len);
  g_simnow = rep.a[7];
}
static void rpc0(Op op, const std::string& text)
{
  SimGuard g;
  Hdr h{}, r; std::string d;
  h.op = op; h.len = text.size();
  rpc(h, text.data(), r, d);
}
void sim_note(const std::string& t) { rpc0(OP_NOTE, t); }
void sim_usage(const std::string& t) { rpc0(OP_USAGE, t); }
extern "C" void sim_unsimulated(const char* f) { rpc0(OP_USAGE, std::string("internal: ") + f + " is not simulated"); _exit(97); }
void sim_yield(int what)
{
  if (g_in_sim || g_sock < 0) return;
  SimGuard g;
  Hdr h{}, r; std::string d;
  h.op = OP_YIELD; h.a[0] = what;
  rpc(h, nullptr, r, d);
}

namespace {

void need_init(const char* f)
{
  if (!g_inited || g_finalized) {
    sim_usage(std::string(f) + " called " + (g_finalized ? "after MPI_Finalize" : "before MPI_Init"));
    _exit(98);
  }
}
// Sends whose request was given up before they were complete: their buffers belong to the library until they are.
struct Orphan { int64_t id; const void* buf; int64_t len; uint64_t hash; };
std::vector<Orphan> g_orphans;
void check_orphans()
{
  if (g_orphans.empty()) return;
  std::vector<Orphan> left;
  for (auto& o : g_orphans) {
    Hdr h{}, r; std::string d;
    h.op = OP_REQFREE; h.a[0] = o.id; h.a[1] = 1;
    rpc(h, nullptr, r, d);
    if (r.a[0]) continue;
    std::vector<char> now(o.len);
    struct iovec to { now.data(), (size_t)o.len }, from { const_cast<void*>(o.buf), (size_t)o.len };   // may have been unmapped
    bool there = process_vm_readv(getpid(), &to, 1, &from, 1, 0) == o.len;
    if (!there && errno != EFAULT) { memcpy(now.data(), o.buf, o.len); there = true; }   // the call is not available here
    if (!there || fnv(now.data(), o.len) != o.hash) sim_usage("send buffer modified while the send, whose request was freed, was pending");
    else left.push_back(o);
  }
  g_orphans.swap(left);
}
#define ENTER(name) SimGuard _sg; need_init(#name); check_orphans()

void check_comm(SimComm* c, const char* f)
{
  if (!c || c->freed) { sim_usage(std::string(f) + " on a null or freed communicator"); _exit(98); }
}

void setstatus(MPI_Status* st, int src, int tag, int64_t bytes)
{
  if (st == MPI_STATUS_IGNORE || !st) return;
  st->MPI_SOURCE = src; st->MPI_TAG = tag; st->MPI_ERROR = MPI_SUCCESS; st->_cancelled = 0; st->_ucount = bytes;
}

void poison(void* b, int64_t n) { if (g_scn.poison && n > 0) memset(b, 0xFF, n); }
void check_poison(const void* b, int64_t n, const char* what)
{
  if (!g_scn.poison) return;
  auto* p = (const unsigned char*)b;
  for (int64_t i = 0; i < n; ++i)
    if (p[i] != 0xFF) { sim_usage(std::string("receive buffer written by the program while a ") + what + " was pending"); return; }
}

// Applies the result of a collective on this rank.
void finish_coll(CollPost& c, SimComm* comm, const std::string& data)
{
  // data: per participating rank [n64 bytes]
  std::vector<std::string> parts;
  size_t o = 0;
  int64_t np = data.empty() ? 0 : get64(data, o);
  for (int64_t i = 0; i < np; ++i) { int64_t n = get64(data, o); parts.push_back(n > 0 ? data.substr(o, n) : std::string()); o += n > 0 ? n : 0; }
  int n = c.n, me = c.me;
  auto bad = [&](const std::string& t) { sim_usage("collective " + t); };
  switch (c.kind) {
    case C_BARRIER: case C_COMM_FREE: break;
    case C_BCAST:
      if (me != c.root) {
        if ((int64_t)parts.at(0).size() != c.rcount * c.esz) bad("broadcast: root sent " + std::to_string(parts[0].size()) + " bytes, receiver expects " + std::to_string(c.rcount * c.esz));
        memcpy(c.rbuf, parts[0].data(), std::min<int64_t>(parts[0].size(), c.rcount * c.esz));
      }
      break;
    case C_REDUCE: case C_ALLREDUCE: case C_SCAN: case C_EXSCAN: case C_REDUCE_SCATTER: {
      if (c.kind == C_REDUCE && me != c.root) break;
      int64_t bytes = c.rcount * c.esz;
      int lo = 0, hi = n;
      if (c.kind == C_SCAN) hi = me + 1;
      if (c.kind == C_EXSCAN) hi = me;
      for (int i = 0; i < n; ++i)
        if ((int64_t)parts.at(i).size() != bytes) { bad("reduction: ranks pass different element counts (" + std::to_string(parts[i].size()) + " and " + std::to_string(bytes) + " bytes)"); return; }
      if (hi == 0 || bytes == 0) break;
      bool rev = g_scn.fold == 1 && (c.kind == C_ALLREDUCE || c.kind == C_REDUCE || c.kind == C_REDUCE_SCATTER) && opcode(c.op) != 100;
      std::string acc = parts[rev ? hi - 1 : lo];
      for (int i = 1; i < hi; ++i) fold(c.op, c.type, &acc[0], &parts[rev ? hi - 1 - i : i][0], c.rcount);
      if (c.kind == C_REDUCE_SCATTER) {
        int64_t off = 0; for (int i = 0; i < me; ++i) off += c.counts[i];
        memcpy(c.rbuf, acc.data() + off * c.esz, (size_t)c.counts[me] * c.esz);
      } else memcpy(c.rbuf, acc.data(), bytes);
      break;
    }
    case C_GATHER: case C_GATHERV:
      if (me != c.root) break;  // fallthrough for root
      // fallthrough
    case C_ALLGATHER: case C_ALLGATHERV: case C_ALLTOALL: case C_ALLTOALLV: {
      for (int i = 0; i < n; ++i) {
        int64_t want = (int64_t)c.counts[i] * c.resz;
        if ((int64_t)parts.at(i).size() != want)
          bad("gather/alltoall: rank " + std::to_string(i) + " contributes " + std::to_string(parts[i].size()) + " bytes, receiver expects " + std::to_string(want));
        if (c.inplace && i == me && c.kind != C_ALLTOALL && c.kind != C_ALLTOALLV) continue;
        memcpy((char*)c.rbuf + (int64_t)c.displs[i] * c.resz, parts[i].data(), std::min<int64_t>(parts[i].size(), want));
      }
      break;
    }
    case C_SCATTER: case C_SCATTERV:
      if (me == c.root && c.inplace) break;
      if ((int64_t)parts.at(0).size() != c.rcount * c.esz) bad("scatter: root sends " + std::to_string(parts[0].size()) + " bytes, receiver expects " + std::to_string(c.rcount * c.esz));
      memcpy(c.rbuf, parts[0].data(), std::min<int64_t>(parts[0].size(), c.rcount * c.esz));
      break;
  }
}

int64_t post(const Hdr& h, const std::string& payload)
{
  Hdr r; std::string d;
  rpc(h, payload.data(), r, d);
  return r.a[0];
}

struct Done { int idx; int src, tag; int64_t bytes; };

void complete_local(SimReq* q, int src, int tag, const std::string& data, MPI_Status* st)
{
  for (auto& r : q->sregions)
    (void)r;
  if (q->kind == R_SEND) {
    if (q->slen && fnv(q->sbuf, q->slen) != q->shash) sim_usage("send buffer modified while the send was pending");
    setstatus(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
  } else if (q->kind == R_RECV) {
    if (q->poisoned) { check_poison(q->rbuf, q->cap, "receive"); memcpy(q->rbuf, q->saved.data(), q->saved.size()); }
    if ((int64_t)data.size() > q->cap) {
      sim_usage("message truncated: " + std::to_string(data.size()) + " bytes into a buffer of " + std::to_string(q->cap));
      _exit(99);
    }
    if (data.size()) memcpy(q->rbuf, data.data(), data.size());
    int s = src;
    if (q->comm) for (size_t i = 0; i < q->comm->ranks.size(); ++i) if (q->comm->ranks[i] == src) s = (int)i;
    setstatus(st, s, tag, data.size());
  } else if (q->kind == R_COLL) {
    if (q->shash && fnv(q->sbuf, q->slen) != q->shash) sim_usage("send buffer of a nonblocking collective modified while it was pending");
    if (q->poisoned) for (auto& r : q->rregions) check_poison(r.first, r.second, "nonblocking collective");
    if (q->poisoned) for (size_t i = 0; i < q->rregions.size(); ++i) memcpy((void*)q->rregions[i].first, q->rsaved[i].data(), q->rsaved[i].size());
    finish_coll(q->coll, q->comm, data);
    setstatus(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
  } else setstatus(st, MPI_PROC_NULL, MPI_ANY_TAG, 0);
}

SimReq* R(MPI_Request r) { return reinterpret_cast<SimReq*>(r); }

// mode 0 all, 1 any, 2 some. Returns number completed (or -1 if none active).
int wait_test_(bool block, int mode, int n, MPI_Request* reqs, int* flag, int* outidx, int* outcount, MPI_Status* sts)
{
  std::vector<int> act;
  for (int i = 0; i < n; ++i) if (reqs[i] != MPI_REQUEST_NULL) act.push_back(i);
  if (act.empty()) {
    if (flag) *flag = 1;
    if (mode == 1 && outidx) *outidx = MPI_UNDEFINED;
    if (mode == 2 && outcount) *outcount = MPI_UNDEFINED;
    if (sts != MPI_STATUSES_IGNORE) for (int i = 0; i < (mode == 0 ? n : std::min(n, 1)); ++i) setstatus(&sts[i], MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
    return -1;
  }
  std::string pl;
  for (int i : act) put64(pl, R(reqs[i])->id);
  Hdr h{}, r; std::string d;
  h.op = block ? OP_WAIT : OP_TEST; h.a[0] = mode; h.a[1] = act.size(); h.len = pl.size();
  rpc(h, pl.data(), r, d);
  // reply: a0 = count completed; data: [pos src tag n bytes]*
  int64_t k = r.a[0];
  if (flag) *flag = k > 0;
  if (mode == 2 && outcount) *outcount = (int)k;
  if (mode == 1 && outidx && k == 0) *outidx = MPI_UNDEFINED;
  size_t o = 0;
  if (mode == 0 && k > 0 && sts != MPI_STATUSES_IGNORE && sts)
    for (int i = 0; i < n; ++i) if (reqs[i] == MPI_REQUEST_NULL) setstatus(&sts[i], MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
  for (int64_t j = 0; j < k; ++j) {
    int64_t pos = get64(d, o), src = get64(d, o), tag = get64(d, o), nb = get64(d, o);
    std::string data = d.substr(o, nb); o += nb;
    int i = act[pos];
    SimReq* q = R(reqs[i]);
    MPI_Status* st = MPI_STATUS_IGNORE;
    if (sts != MPI_STATUSES_IGNORE && sts) st = mode == 0 ? &sts[i] : &sts[mode == 1 ? 0 : j];
    complete_local(q, src, tag, data, st);
    g_reqs.erase(q->id);
    delete q;
    reqs[i] = MPI_REQUEST_NULL;
    if (mode == 1 && outidx) *outidx = i;
    if (mode == 2 && outidx) outidx[j] = i;
  }
  return (int)k;
}

int wait_test(bool block, int mode, int n, MPI_Request* reqs, int* flag, int* outidx, int* outcount, MPI_Status* sts)
{
  bool any = false;
  for (int i = 0; i < n; ++i) if (reqs[i] != MPI_REQUEST_NULL && R(reqs[i])->kind == R_PERSIST) any = true;
  if (!any) return wait_test_(block, mode, n, reqs, flag, outidx, outcount, sts);
  std::vector<MPI_Request> in(reqs, reqs + n);
  std::vector<SimReq*> per(n, nullptr);
  for (int i = 0; i < n; ++i)
    if (in[i] != MPI_REQUEST_NULL && R(in[i])->kind == R_PERSIST) { per[i] = R(in[i]); in[i] = per[i]->inner; }
  int k = wait_test_(block, mode, n, in.data(), flag, outidx, outcount, sts);
  for (int i = 0; i < n; ++i) if (per[i]) per[i]->inner = in[i]; else reqs[i] = in[i];
  return k;
}

int do_send(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm, int flags, MPI_Request* out)
{
  SimComm* c = C(comm); check_comm(c, "send");
  if (count < 0) { sim_usage("negative send count"); _exit(98); }
  int64_t bytes = (int64_t)count * tsize(t);
  auto* q = new SimReq{};
  if (dest == MPI_PROC_NULL) {
    delete q;
    if (out) *out = MPI_REQUEST_NULL;
    return MPI_SUCCESS;
  }
  if (dest < 0 || dest >= (int)c->ranks.size()) { sim_usage("send to an invalid rank"); _exit(98); }
  if (tag < 0) { sim_usage("send with an invalid tag"); _exit(98); }
  Hdr h{};
  h.op = OP_SEND; h.a[0] = c->id; h.a[1] = c->ranks[dest]; h.a[2] = tag; h.a[3] = flags; h.len = bytes;
  std::string pl((const char*)buf, bytes);
  q->kind = R_SEND; q->sbuf = buf; q->slen = bytes; q->shash = fnv(buf, bytes);
  q->id = post(h, pl);
  if (out) { g_reqs[q->id] = q; *out = reinterpret_cast<MPI_Request>(q); }
  else delete q;   // blocking: the reply already means completion
  return MPI_SUCCESS;
}

int do_irecv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request* out)
{
  SimComm* c = C(comm); check_comm(c, "receive");
  if (src == MPI_PROC_NULL) { *out = MPI_REQUEST_NULL; return MPI_SUCCESS; }
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->ranks.size())) { sim_usage("receive from an invalid rank"); _exit(98); }
  auto* q = new SimReq{};
  q->kind = R_RECV; q->rbuf = buf; q->cap = (int64_t)count * tsize(t); q->comm = c;
  Hdr h{};
  h.op = OP_RECV; h.a[0] = c->id; h.a[1] = src == MPI_ANY_SOURCE ? -1 : c->ranks[src]; h.a[2] = tag == MPI_ANY_TAG ? -1 : tag; h.a[3] = q->cap;
  if (g_scn.poison && q->cap > 0) q->saved.assign((const char*)buf, q->cap);
  poison(buf, q->cap); q->poisoned = true;
  q->id = post(h, "");
  g_reqs[q->id] = q;
  *out = reinterpret_cast<MPI_Request>(q);
  return MPI_SUCCESS;
}

// Posts a collective. payload: n64 parts, each (len, bytes): one part = same to all, n parts = per destination.
int do_coll(CollPost cp, SimComm* c, const std::vector<std::string>& parts, MPI_Request* out,
            const void* sbuf, int64_t slen, std::vector<std::pair<const char*, int64_t>> rreg, std::string* raw = nullptr)
{
  std::string pl;
  put64(pl, parts.size());
  for (auto& p : parts) { put64(pl, p.size()); pl += p; }
  Hdr h{};
  h.op = OP_COLL; h.a[0] = c->id; h.a[1] = cp.kind; h.a[2] = cp.root;
  h.a[3] = cp.op ? opcode(cp.op) : 0; h.a[4] = cp.type ? tcode(cp.type) : 0; h.a[5] = out ? 0 : 1; h.len = pl.size();
  g_shm->ncoll++;
  cp.n = c->ranks.size(); cp.me = c->me;
  if (!out) {
    Hdr r; std::string d;
    rpc(h, pl.data(), r, d);
    if (raw) { *raw = d; return MPI_SUCCESS; }
    finish_coll(cp, c, d);
    return MPI_SUCCESS;
  }
  auto* q = new SimReq{};
  q->kind = R_COLL; q->coll = cp; q->comm = c; q->sbuf = sbuf; q->slen = slen;
  q->shash = slen ? fnv(sbuf, slen) : 0;
  q->rregions = rreg;
  q->poisoned = !rreg.empty() && g_scn.poison;
  if (q->poisoned) for (auto& r : rreg) q->rsaved.emplace_back(r.first, r.second);
  for (auto& r : rreg) poison((void*)r.first, r.second);
  q->id = post(h, pl);
  g_reqs[q->id] = q;
  *out = reinterpret_cast<MPI_Request>(q);
  return MPI_SUCCESS;
}
std::string S(const void* b, int64_t n) { return n > 0 ? std::string((const char*)b, n) : std::string(); }
typedef std::vector<std::pair<const char*, int64_t>> Regs;
Regs region(const void* b, int64_t n) { Regs r; if (n > 0) r.push_back({(const char*)b, n}); return r; }

int barrier_(MPI_Comm cm, MPI_Request* q)
{
  SimComm* c = C(cm); check_comm(c, "barrier");
  CollPost p{}; p.kind = C_BARRIER;
  return do_coll(p, c, {}, q, nullptr, 0, {});
}
int bcast_(void* b, int n, MPI_Datatype t, int root, MPI_Comm cm, MPI_Request* q)
{
  SimComm* c = C(cm); check_comm(c, "broadcast");
  if (root < 0 || root >= (int)c->ranks.size()) { sim_usage("broadcast with an invalid root"); _exit(98); }
  CollPost p{}; p.kind = C_BCAST; p.root = root; p.rbuf = b; p.rcount = n; p.type = t; p.esz = tsize(t);
  std::vector<std::string> parts;
  int64_t bytes = (int64_t)n * tsize(t);
  bool isroot = c->me == root;
  if (isroot) parts.push_back(S(b, bytes));
  return do_coll(p, c, parts, q, isroot ? b : nullptr, isroot ? bytes : 0, isroot ? Regs{} : region(b, bytes));
}
int reduce_(int kind, const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm cm, MPI_Request* q, const int* counts = nullptr)
{
  SimComm* c = C(cm); check_comm(c, "reduction");
  if (root < 0 || root >= (int)c->ranks.size()) { sim_usage("reduction with an invalid root"); _exit(98); }
  if (n < 0) { sim_usage("reduction with a negative count"); _exit(98); }
  CollPost p{}; p.kind = kind; p.root = root; p.rbuf = r; p.rcount = n; p.type = t; p.op = op; p.esz = tsize(t);
  if (counts) { p.counts.assign(counts, counts + c->ranks.size()); p.rcount = 0; for (int x : p.counts) p.rcount += x; }
  bool inpl = s == MPI_IN_PLACE;
  int64_t bytes = p.rcount * tsize(t);
  const void* src = inpl ? r : s;
  bool recvs = kind != C_REDUCE || c->me == root;
  if (!inpl && recvs && n > 0 && s == (const void*)r) sim_usage("reduction with aliased send and receive buffers");
  int64_t rbytes = counts ? (int64_t)p.counts[c->me] * tsize(t) : bytes;
  return do_coll(p, c, {S(src, bytes)}, q, inpl ? nullptr : s, inpl ? 0 : bytes, (inpl || !recvs) ? Regs{} : region(r, rbytes));
}
int gather_(int kind, const void* s, int sn, MPI_Datatype st, void* r, int rn, const int* rc, const int* rd, MPI_Datatype rt, int root, MPI_Comm cm, MPI_Request* q)
{
  SimComm* c = C(cm); check_comm(c, "gather");
  bool all = kind == C_ALLGATHER || kind == C_ALLGATHERV;
  if (!all && (root < 0 || root >= (int)c->ranks.size())) { sim_usage("gather with an invalid root"); _exit(98); }
  int n = c->ranks.size();
  CollPost p{}; p.kind = kind; p.root = all ? 0 : root; p.rbuf = r;
  bool recvs = all || c->me == root;
  p.inplace = s == MPI_IN_PLACE;
  Regs reg;
  if (recvs) {
    p.resz = tsize(rt); p.type = nullptr;
    for (int i = 0; i < n; ++i) { p.counts.push_back(rc ? rc[i] : rn); p.displs.push_back(rd ? rd[i] : i * rn); }
    if (!p.inplace) for (int i = 0; i < n; ++i) if (p.counts[i] > 0) reg.push_back({(char*)r + (int64_t)p.displs[i] * p.resz, (int64_t)p.counts[i] * p.resz});
  }
  std::string mine;
  if (p.inplace) mine = S((char*)r + (int64_t)p.displs[c->me] * p.resz, (int64_t)p.counts[c->me] * p.resz);
  else mine = S(s, (int64_t)sn * tsize(st));
  return do_coll(p, c, {mine}, q, p.inplace ? nullptr : s, p.inplace ? 0 : (int64_t)mine.size(), reg);
}
int scatter_(int kind, const void* s, int sn, const int* sc, const int* sd, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm cm, MPI_Request* q)
{
  SimComm* c = C(cm); check_comm(c, "scatter");
  if (root < 0 || root >= (int)c->ranks.size()) { sim_usage("scatter with an invalid root"); _exit(98); }
  int n = c->ranks.size();
  CollPost p{}; p.kind = kind; p.root = root; p.rbuf = r; p.inplace = r == MPI_IN_PLACE;
  if (!p.inplace) { p.rcount = rn; p.esz = tsize(rt); }
  std::vector<std::string> parts;
  if (c->me == root)
    for (int i = 0; i < n; ++i) {
      int64_t cnt = sc ? sc[i] : sn, dis = sd ? sd[i] : (int64_t)i * sn;
      parts.push_back(S((const char*)s + dis * tsize(st), cnt * tsize(st)));
    }
  return do_coll(p, c, parts, q, nullptr, 0, p.inplace ? Regs{} : region(r, (int64_t)rn * p.esz));
}
int alltoall_(int kind, const void* s, int sn, const int* sc, const int* sd, MPI_Datatype st, void* r, int rn, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm cm, MPI_Request* q)
{
  SimComm* c = C(cm); check_comm(c, "alltoall");
  int n = c->ranks.size();
  CollPost p{}; p.kind = kind; p.rbuf = r; p.resz = tsize(rt); p.inplace = s == MPI_IN_PLACE;
  for (int i = 0; i < n; ++i) { p.counts.push_back(rc ? rc[i] : rn); p.displs.push_back(rd ? rd[i] : i * rn); }
  std::vector<std::string> parts;
  Regs reg;
  if (!p.inplace) for (int i = 0; i < n; ++i) if (p.counts[i] > 0) reg.push_back({(char*)r + (int64_t)p.displs[i] * p.resz, (int64_t)p.counts[i] * p.resz});
  for (int i = 0; i < n; ++i) {
    if (p.inplace) parts.push_back(S((char*)r + (int64_t)p.displs[i] * p.resz, (int64_t)p.counts[i] * p.resz));
    else {
      int64_t cnt = sc ? sc[i] : sn, dis = sd ? sd[i] : (int64_t)i * sn;
      parts.push_back(S((const char*)s + dis * tsize(st), cnt * tsize(st)));
    }
  }
  return do_coll(p, c, parts, q, nullptr, 0, reg);
}

SimComm* comm_from(const std::string& d)
{
  size_t o = 0;
  int64_t id = get64(d, o);
  if (id < 0) return nullptr;
  int64_t n = get64(d, o);
  auto* c = new SimComm{};
  c->id = id;
  for (int64_t i = 0; i < n; ++i) {
    c->ranks.push_back((int)get64(d, o));
    if (c->ranks.back() == g_rank) c->me = i;
  }
  return c;
}
void run_delete_attrs(SimComm* c)
{
  auto order = g_attr_order;
  for (auto it = order.rbegin(); it != order.rend(); ++it)
    if (it->first == c && c->attrs.count(it->second)) {
      auto& kv = g_keyvals[it->second];
      void* v = c->attrs[it->second];
      c->attrs.erase(it->second);
      if (kv.del) { --g_in_sim; kv.del(H(c), it->second, v, kv.extra); ++g_in_sim; }
    }
}
int init_()
{
  if (g_inited) { sim_usage("MPI_Init called twice"); _exit(98); }
  Hdr h{}, r; std::string d;
  h.op = OP_INIT;
  rpc(h, nullptr, r, d);
  g_world = new SimComm{}; g_world->id = 0;
  for (int i = 0; i < g_scn.nranks; ++i) g_world->ranks.push_back(i);
  g_world->me = g_rank;
  g_self = new SimComm{}; g_self->id = 1 + g_rank; g_self->ranks = {g_rank}; g_self->me = 0;
  g_inited = true;
  g_shm->inited = 1;
  return MPI_SUCCESS;
}

}  // namespace

extern "C" {

int MPI_Init(int*, char***) { SimGuard g; return init_(); }
int MPI_Init_thread(int*, char***, int req, int* prov) { SimGuard g; if (prov) *prov = req; return init_(); }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Is_thread_main(int* f) { *f = 1; return 0; }
int MPI_Initialized(int* f) { *f = g_inited; return 0; }
int MPI_Finalized(int* f) { *f = g_finalized; return 0; }
int MPI_Finalize()
{
  ENTER(MPI_Finalize);
  run_delete_attrs(g_self);
  Hdr h{}, r; std::string d;
  h.op = OP_FINALIZE;
  for (auto& q : g_reqs) h.a[0] += q.second->kind != R_PERSIST || q.second->inner != MPI_REQUEST_NULL;
  rpc(h, nullptr, r, d);
  g_finalized = true;
  g_shm->finalized = 1;
  return 0;
}
int MPI_Abort(MPI_Comm, int code)
{
  SimGuard g;
  fflush(nullptr);
  Hdr h{}, r; std::string d;
  h.op = OP_ABORT; h.a[0] = code;
  rpc(h, nullptr, r, d);
  _exit(code & 0xff ? code & 0xff : 1);
}
double MPI_Wtime() { return sim_wtime(); }
double MPI_Wtick() { return 1e-9; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "simhost"); *l = 7; return 0; }
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
int MPI_Get_library_version(char* n, int* l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Error_string(int, char* s, int* l) { strcpy(s, "simulated MPI error"); *l = strlen(s); return 0; }
int MPI_Error_class(int c, int* k) { *k = c; return 0; }

int MPI_Comm_rank(MPI_Comm c, int* r) { ENTER(MPI_Comm_rank); SimComm* x = C(c); check_comm(x, "MPI_Comm_rank"); *r = x->me; return 0; }
int MPI_Comm_size(MPI_Comm c, int* r) { ENTER(MPI_Comm_size); SimComm* x = C(c); check_comm(x, "MPI_Comm_size"); *r = x->ranks.size(); return 0; }
int MPI_Comm_test_inter(MPI_Comm, int* f) { *f = 0; return 0; }
int MPI_Comm_remote_size(MPI_Comm, int* r) { *r = 0; return 0; }
int MPI_Topo_test(MPI_Comm, int* s) { *s = MPI_UNDEFINED; return 0; }
int MPI_Comm_set_name(MPI_Comm, const char*) { return 0; }
int MPI_Comm_get_name(MPI_Comm, char* n, int* l) { strcpy(n, ""); *l = 0; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler* e) { *e = MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Errhandler_free(MPI_Errhandler* e) { *e = MPI_ERRHANDLER_NULL; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r)
{
  SimGuard g;
  SimComm *x = C(a), *y = C(b);
  if (x == y || (x && y && x->id == y->id)) *r = MPI_IDENT;
  else if (x && y && x->ranks == y->ranks) *r = MPI_CONGRUENT;
  else {
    *r = MPI_UNEQUAL;
    if (x && y) { auto p = x->ranks, q = y->ranks; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); if (p == q) *r = MPI_SIMILAR; }
  }
  return 0;
}
static int newcomm(int kind, MPI_Comm c, const std::string& payload, MPI_Comm* out)
{
  SimComm* x = C(c); check_comm(x, "communicator creation");
  CollPost p{}; p.kind = kind;
  std::string raw;
  do_coll(p, x, {payload}, nullptr, nullptr, 0, {}, &raw);
  *out = H(comm_from(raw));
  if (*out != MPI_COMM_NULL) ++sim_live_comms;
  return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out)
{
  ENTER(MPI_Comm_split);
  if (color < 0 && color != MPI_UNDEFINED) { sim_usage("MPI_Comm_split with a negative color"); _exit(98); }
  std::string p; put64(p, color == MPI_UNDEFINED ? -1 : color); put64(p, key);
  return newcomm(C_COMM_SPLIT, c, p, out);
}
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm* out)
{
  ENTER(MPI_Comm_split_type);
  std::string p; put64(p, 0); put64(p, key);
  return newcomm(C_COMM_SPLIT, c, p, out);
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { ENTER(MPI_Comm_dup); return newcomm(C_COMM_DUP, c, "", out); }
int MPI_Comm_dup_with_info(MPI_Comm c, MPI_Info, MPI_Comm* out) { return MPI_Comm_dup(c, out); }
int MPI_Comm_create(MPI_Comm c, MPI_Group gr, MPI_Comm* out)
{
  ENTER(MPI_Comm_create);
  std::string p;
  for (int r : reinterpret_cast<SimGroup*>(gr)->ranks) put64(p, r);
  return newcomm(C_COMM_CREATE, c, p, out);
}
int MPI_Comm_free(MPI_Comm* c)
{
  ENTER(MPI_Comm_free);
  SimComm* x = C(*c); check_comm(x, "MPI_Comm_free");
  if (x == g_world || x == g_self) { sim_usage("MPI_Comm_free of a predefined communicator"); _exit(98); }
  run_delete_attrs(x);
  CollPost p{}; p.kind = C_COMM_FREE;
  do_coll(p, x, {}, nullptr, nullptr, 0, {});
  x->freed = true;
  --sim_live_comms;
  sim_waste += malloc_usable_size(x) + (x->ranks.capacity() ? malloc_usable_size(x->ranks.data()) : 0);
  *c = MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_disconnect(MPI_Comm* c) { return MPI_Comm_free(c); }
int MPI_Comm_group(MPI_Comm c, MPI_Group* out)
{
  ENTER(MPI_Comm_group);
  auto* x = new SimGroup{C(c)->ranks};
  *out = reinterpret_cast<MPI_Group>(x);
  return 0;
}
static SimGroup* G(MPI_Group g) { static SimGroup empty; return (g == MPI_GROUP_EMPTY || g == MPI_GROUP_NULL) ? &empty : reinterpret_cast<SimGroup*>(g); }
int MPI_Group_size(MPI_Group g, int* n) { *n = G(g)->ranks.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int* r)
{
  *r = MPI_UNDEFINED;
  auto& v = G(g)->ranks;
  for (size_t i = 0; i < v.size(); ++i) if (v[i] == g_rank) *r = i;
  return 0;
}
int MPI_Group_incl(MPI_Group g, int n, const int* idx, MPI_Group* out)
{
  SimGuard s;
  auto* x = new SimGroup{};
  for (int i = 0; i < n; ++i) x->ranks.push_back(G(g)->ranks.at(idx[i]));
  *out = reinterpret_cast<MPI_Group>(x);
  return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int* idx, MPI_Group* out)
{
  SimGuard s;
  auto* x = new SimGroup{};
  auto& v = G(g)->ranks;
  for (size_t i = 0; i < v.size(); ++i) if (std::find(idx, idx + n, (int)i) == idx + n) x->ranks.push_back(v[i]);
  *out = reinterpret_cast<MPI_Group>(x);
  return 0;
}
int MPI_Group_range_incl(MPI_Group g, int n, int r[][3], MPI_Group* out)
{
  SimGuard s;
  auto* x = new SimGroup{};
  for (int i = 0; i < n; ++i) for (int k = r[i][0]; r[i][2] > 0 ? k <= r[i][1] : k >= r[i][1]; k += r[i][2]) x->ranks.push_back(G(g)->ranks.at(k));
  *out = reinterpret_cast<MPI_Group>(x);
  return 0;
}
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group* out)
{
  SimGuard s;
  auto* x = new SimGroup{};
  for (int r : G(a)->ranks) if (std::find(G(b)->ranks.begin(), G(b)->ranks.end(), r) != G(b)->ranks.end()) x->ranks.push_back(r);
  *out = reinterpret_cast<MPI_Group>(x);
  return 0;
}
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group* out)
{
  SimGuard s;
  auto* x = new SimGroup{};
  for (int r : G(a)->ranks) if (std::find(G(b)->ranks.begin(), G(b)->ranks.end(), r) == G(b)->ranks.end()) x->ranks.push_back(r);
  *out = reinterpret_cast<MPI_Group>(x);
  return 0;
}
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group* out)
{
  SimGuard s;
  auto* x = new SimGroup{G(a)->ranks};
  for (int r : G(b)->ranks) if (std::find(x->ranks.begin(), x->ranks.end(), r) == x->ranks.end()) x->ranks.push_back(r);
  *out = reinterpret_cast<MPI_Group>(x);
  return 0;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* r, MPI_Group b, int* out)
{
  for (int i = 0; i < n; ++i) {
    out[i] = MPI_UNDEFINED;
    int w = G(a)->ranks.at(r[i]);
    for (size_t k = 0; k < G(b)->ranks.size(); ++k) if (G(b)->ranks[k] == w) out[i] = k;
  }
  return 0;
}
int MPI_Group_compare(MPI_Group a, MPI_Group b, int* r)
{
  *r = G(a)->ranks == G(b)->ranks ? MPI_IDENT : MPI_UNEQUAL;
  return 0;
}
int MPI_Group_free(MPI_Group* g)
{
  SimGuard s;
  if (*g != MPI_GROUP_EMPTY && *g != MPI_GROUP_NULL) delete reinterpret_cast<SimGroup*>(*g);
  *g = MPI_GROUP_NULL;
  return 0;
}

int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function* cp, MPI_Comm_delete_attr_function* del, int* key, void* extra)
{
  SimGuard s;
  *key = g_next_key++;
  g_keyvals[*key] = {del == MPI_COMM_NULL_DELETE_FN ? nullptr : del, cp, extra};
  return 0;
}
int MPI_Comm_free_keyval(int* k) { *k = MPI_KEYVAL_INVALID; return 0; }
int MPI_Comm_set_attr(MPI_Comm c, int k, void* v)
{
  ENTER(MPI_Comm_set_attr);
  SimComm* x = C(c); check_comm(x, "MPI_Comm_set_attr");
  x->attrs[k] = v; g_attr_order.push_back({x, k});
  return 0;
}
int MPI_Comm_get_attr(MPI_Comm c, int k, void* v, int* f)
{
  ENTER(MPI_Comm_get_attr);
  static int tag_ub = INT_MAX, wtg = 0, host = MPI_PROC_NULL, io = MPI_ANY_SOURCE;
  *f = 1;
  if (k == MPI_TAG_UB) { *(int**)v = &tag_ub; return 0; }
  if (k == MPI_WTIME_IS_GLOBAL) { *(int**)v = &wtg; return 0; }
  if (k == MPI_HOST) { *(int**)v = &host; return 0; }
  if (k == MPI_IO) { *(int**)v = &io; return 0; }
  SimComm* x = C(c); check_comm(x, "MPI_Comm_get_attr");
  auto it = x->attrs.find(k);
  if (it == x->attrs.end()) *f = 0; else *(void**)v = it->second;
  return 0;
}
int MPI_Comm_delete_attr(MPI_Comm c, int k)
{
  ENTER(MPI_Comm_delete_attr);
  SimComm* x = C(c);
  auto it = x->attrs.find(k);
  if (it != x->attrs.end()) { void* v = it->second; x->attrs.erase(it); auto& kv = g_keyvals[k]; if (kv.del) kv.del(c, k, v, kv.extra); }
  return 0;
}

int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype* o)
{
  SimGuard s;
  auto* x = new SimType{n * tsize(t), tbase(t)};
  *o = reinterpret_cast<MPI_Datatype>(x);
  return 0;
}
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype* o) { return MPI_Type_contiguous(1, t, o); }
int MPI_Type_commit(MPI_Datatype*) { return 0; }
int MPI_Type_free(MPI_Datatype* t)
{
  SimGuard s;
  sim_waste += malloc_usable_size(reinterpret_cast<void*>(*t));   // may still be in use by a pending transfer
  *t = MPI_DATATYPE_NULL;
  return 0;
}
int MPI_Type_size(MPI_Datatype t, int* n) { *n = tsize(t); return 0; }
int MPI_Type_size_x(MPI_Datatype t, MPI_Count* n) { *n = tsize(t); return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { *lb = 0; *e = tsize(t); return 0; }
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { *lb = 0; *e = tsize(t); return 0; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint)p; return 0; }
int MPI_Op_create(MPI_User_function* f, int c, MPI_Op* o)
{
  SimGuard s;
  *o = reinterpret_cast<MPI_Op>(new SimOp{f, c});
  return 0;
}
int MPI_Op_free(MPI_Op* o)
{
  SimGuard s;
  sim_waste += malloc_usable_size(reinterpret_cast<void*>(*o));
  *o = MPI_OP_NULL;
  return 0;
}
int MPI_Op_commutative(MPI_Op, int* c) { *c = 1; return 0; }
int MPI_Reduce_local(const void* in, void* io, int n, MPI_Datatype t, MPI_Op op)
{
  SimGuard s;
  std::string a = S(in, (int64_t)n * tsize(t));
  fold(op, t, &a[0], io, n);
  memcpy(io, a.data(), a.size());
  return 0;
}
int MPI_Info_create(MPI_Info* i) { *i = MPI_INFO_NULL; return 0; }
int MPI_Info_free(MPI_Info* i) { *i = MPI_INFO_NULL; return 0; }
int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; }

int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n)
{
  int s = tsize(t);
  if (s == 0) { *n = 0; return 0; }
  *n = st->_ucount % s ? MPI_UNDEFINED : (int)(st->_ucount / s);
  return 0;
}
int MPI_Get_elements(const MPI_Status* st, MPI_Datatype t, int* n) { return MPI_Get_count(st, tbase(t), n); }

int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { ENTER(MPI_Send); return do_send(b, n, t, d, tag, c, 1, nullptr); }
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { ENTER(MPI_Bsend); return do_send(b, n, t, d, tag, c, 1 | 8, nullptr); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { ENTER(MPI_Ssend); return do_send(b, n, t, d, tag, c, 1 | 2, nullptr); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { ENTER(MPI_Rsend); return do_send(b, n, t, d, tag, c, 1 | 4, nullptr); }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { ENTER(MPI_Isend); return do_send(b, n, t, d, tag, c, 0, r); }
int MPI_Ibsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { ENTER(MPI_Ibsend); return do_send(b, n, t, d, tag, c, 8, r); }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { ENTER(MPI_Issend); return do_send(b, n, t, d, tag, c, 2, r); }
int MPI_Irsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { ENTER(MPI_Irsend); return do_send(b, n, t, d, tag, c, 4, r); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) { ENTER(MPI_Irecv); return do_irecv(b, n, t, s, tag, c, r); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st)
{
  ENTER(MPI_Recv);
  MPI_Request r;
  do_irecv(b, n, t, s, tag, c, &r);
  if (r == MPI_REQUEST_NULL) { setstatus(st, MPI_PROC_NULL, MPI_ANY_TAG, 0); return 0; }
  wait_test(true, 0, 1, &r, nullptr, nullptr, nullptr, st == MPI_STATUS_IGNORE ? MPI_STATUSES_IGNORE : st);
  return 0;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* stt)
{
  ENTER(MPI_Sendrecv);
  MPI_Request r[2];
  std::string copy = S(sb, (int64_t)sn * tsize(st));
  do_irecv(rb, rn, rt, s, rtag, c, &r[0]);
  do_send(copy.data(), sn, st, d, stag, c, 0, &r[1]);
  MPI_Status two[2];
  bool nul = r[0] == MPI_REQUEST_NULL;
  wait_test(true, 0, 2, r, nullptr, nullptr, nullptr, two);
  if (stt != MPI_STATUS_IGNORE) { if (nul) setstatus(stt, MPI_PROC_NULL, MPI_ANY_TAG, 0); else *stt = two[0]; }
  return 0;
}
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status* st)
{
  SimGuard g;
  std::string copy = S(b, (int64_t)n * tsize(t));
  return MPI_Sendrecv(copy.data(), n, t, d, stag, b, n, t, s, rtag, c, st);
}
static int probe_(int s, int tag, MPI_Comm cm, int* flag, MPI_Status* st)
{
  SimComm* c = C(cm); check_comm(c, "probe");
  Hdr h{}, r; std::string d;
  h.op = OP_PROBE; h.a[0] = c->id; h.a[1] = s == MPI_ANY_SOURCE ? -1 : c->ranks.at(s); h.a[2] = tag == MPI_ANY_TAG ? -1 : tag; h.a[3] = flag == nullptr;
  rpc(h, nullptr, r, d);
  if (flag) *flag = (int)r.a[0];
  if (r.a[0]) {
    int src = 0;
    for (size_t i = 0; i < c->ranks.size(); ++i) if (c->ranks[i] == r.a[1]) src = i;
    setstatus(st, src, r.a[2], r.a[3]);
  }
  return 0;
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* st) { ENTER(MPI_Probe); return probe_(s, tag, c, nullptr, st); }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int* f, MPI_Status* st) { ENTER(MPI_Iprobe); return probe_(s, tag, c, f, st); }

int MPI_Wait(MPI_Request* r, MPI_Status* st) { ENTER(MPI_Wait); wait_test(true, 0, 1, r, nullptr, nullptr, nullptr, st == MPI_STATUS_IGNORE ? MPI_STATUSES_IGNORE : st); return 0; }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) { ENTER(MPI_Waitall); wait_test(true, 0, n, r, nullptr, nullptr, nullptr, st); return 0; }
int MPI_Waitany(int n, MPI_Request* r, int* i, MPI_Status* st) { ENTER(MPI_Waitany); wait_test(true, 1, n, r, nullptr, i, nullptr, st == MPI_STATUS_IGNORE ? MPI_STATUSES_IGNORE : st); return 0; }
int MPI_Waitsome(int n, MPI_Request* r, int* oc, int* idx, MPI_Status* st) { ENTER(MPI_Waitsome); wait_test(true, 2, n, r, nullptr, idx, oc, st); return 0; }
int MPI_Test(MPI_Request* r, int* f, MPI_Status* st) { ENTER(MPI_Test); wait_test(false, 0, 1, r, f, nullptr, nullptr, st == MPI_STATUS_IGNORE ? MPI_STATUSES_IGNORE : st); return 0; }
int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* st) { ENTER(MPI_Testall); wait_test(false, 0, n, r, f, nullptr, nullptr, st); return 0; }
int MPI_Testany(int n, MPI_Request* r, int* i, int* f, MPI_Status* st) { ENTER(MPI_Testany); wait_test(false, 1, n, r, f, i, nullptr, st == MPI_STATUS_IGNORE ? MPI_STATUSES_IGNORE : st); return 0; }
int MPI_Testsome(int n, MPI_Request* r, int* oc, int* idx, MPI_Status* st) { ENTER(MPI_Testsome); wait_test(false, 2, n, r, nullptr, idx, oc, st); return 0; }
int MPI_Request_free(MPI_Request* r)
{
  ENTER(MPI_Request_free);
  if (*r == MPI_REQUEST_NULL) return 0;
  if (R(*r)->kind == R_PERSIST) {
    SimReq* p = R(*r);
    g_reqs.erase(p->id);
    *r = MPI_REQUEST_NULL;
    MPI_Request in = p->inner;
    delete p;
    return in == MPI_REQUEST_NULL ? 0 : MPI_Request_free(&in);
  }
  Hdr h{}, q; std::string d;
  h.op = OP_REQFREE; h.a[0] = R(*r)->id;
  rpc(h, nullptr, q, d);
  if (!q.a[0] && R(*r)->kind == R_SEND && R(*r)->slen) g_orphans.push_back({R(*r)->id, R(*r)->sbuf, R(*r)->slen, R(*r)->shash});
  g_reqs.erase(R(*r)->id);
  *r = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Cancel(MPI_Request*) { return 0; }
static int64_t g_persist = -1;
static int persist_(MPI_Request* r, std::function<void(MPI_Request*)> f)
{
  auto* q = new SimReq{};
  q->kind = R_PERSIST; q->id = g_persist--; q->start = std::move(f);
  g_reqs[q->id] = q;
  *r = reinterpret_cast<MPI_Request>(q);
  return 0;
}
int MPI_Send_init(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { ENTER(MPI_Send_init); return persist_(r, [=](MPI_Request* x) { do_send(b, n, t, d, tag, c, 0, x); }); }
int MPI_Bsend_init(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { ENTER(MPI_Bsend_init); return persist_(r, [=](MPI_Request* x) { do_send(b, n, t, d, tag, c, 8, x); }); }
int MPI_Ssend_init(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { ENTER(MPI_Ssend_init); return persist_(r, [=](MPI_Request* x) { do_send(b, n, t, d, tag, c, 2, x); }); }
int MPI_Rsend_init(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { ENTER(MPI_Rsend_init); return persist_(r, [=](MPI_Request* x) { do_send(b, n, t, d, tag, c, 4, x); }); }
int MPI_Recv_init(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) { ENTER(MPI_Recv_init); return persist_(r, [=](MPI_Request* x) { do_irecv(b, n, t, s, tag, c, x); }); }
int MPI_Start(MPI_Request* r)
{
  ENTER(MPI_Start);
  if (*r == MPI_REQUEST_NULL || R(*r)->kind != R_PERSIST) { sim_usage("MPI_Start of a request that is not persistent"); _exit(98); }
  if (R(*r)->inner != MPI_REQUEST_NULL) { sim_usage("MPI_Start of an active request"); _exit(98); }
  R(*r)->start(&R(*r)->inner);
  return 0;
}
int MPI_Startall(int n, MPI_Request* r) { for (int i = 0; i < n; ++i) MPI_Start(&r[i]); return 0; }
int MPI_Buffer_attach(void*, int) { return 0; }
int MPI_Buffer_detach(void* b, int* n) { *(void**)b = nullptr; *n = 0; return 0; }
int MPI_Test_cancelled(const MPI_Status*, int* f) { *f = 0; return 0; }

int MPI_Barrier(MPI_Comm c) { ENTER(MPI_Barrier); return barrier_(c, nullptr); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* q) { ENTER(MPI_Ibarrier); return barrier_(c, q); }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { ENTER(MPI_Bcast); return bcast_(b, n, t, root, c, nullptr); }
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Ibcast); return bcast_(b, n, t, root, c, q); }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { ENTER(MPI_Reduce); return reduce_(C_REDUCE, s, r, n, t, o, root, c, nullptr); }
int MPI_Ireduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Ireduce); return reduce_(C_REDUCE, s, r, n, t, o, root, c, q); }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { ENTER(MPI_Allreduce); return reduce_(C_ALLREDUCE, s, r, n, t, o, 0, c, nullptr); }
int MPI_Iallreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Iallreduce); return reduce_(C_ALLREDUCE, s, r, n, t, o, 0, c, q); }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { ENTER(MPI_Scan); return reduce_(C_SCAN, s, r, n, t, o, 0, c, nullptr); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { ENTER(MPI_Exscan); return reduce_(C_EXSCAN, s, r, n, t, o, 0, c, nullptr); }
int MPI_Iscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Iscan); return reduce_(C_SCAN, s, r, n, t, o, 0, c, q); }
int MPI_Iexscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Iexscan); return reduce_(C_EXSCAN, s, r, n, t, o, 0, c, q); }
int MPI_Ireduce_scatter(const void* s, void* r, const int* n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Ireduce_scatter); return reduce_(C_REDUCE_SCATTER, s, r, 0, t, o, 0, c, q, n); }
int MPI_Reduce_scatter(const void* s, void* r, const int* n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { ENTER(MPI_Reduce_scatter); return reduce_(C_REDUCE_SCATTER, s, r, 0, t, o, 0, c, nullptr, n); }
int MPI_Reduce_scatter_block(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
  ENTER(MPI_Reduce_scatter_block);
  std::vector<int> v(C(c)->ranks.size(), n);
  return reduce_(C_REDUCE_SCATTER, s, r, 0, t, o, 0, c, nullptr, v.data());
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { ENTER(MPI_Gather); return gather_(C_GATHER, s, sn, st, r, rn, nullptr, nullptr, rt, root, c, nullptr); }
int MPI_Igather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Igather); return gather_(C_GATHER, s, sn, st, r, rn, nullptr, nullptr, rt, root, c, q); }
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rc, const int* rd, MPI_Datatype rt, int root, MPI_Comm c) { ENTER(MPI_Gatherv); return gather_(C_GATHERV, s, sn, st, r, 0, rc, rd, rt, root, c, nullptr); }
int MPI_Igatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rc, const int* rd, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Igatherv); return gather_(C_GATHERV, s, sn, st, r, 0, rc, rd, rt, root, c, q); }
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { ENTER(MPI_Allgather); return gather_(C_ALLGATHER, s, sn, st, r, rn, nullptr, nullptr, rt, 0, c, nullptr); }
int MPI_Iallgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Iallgather); return gather_(C_ALLGATHER, s, sn, st, r, rn, nullptr, nullptr, rt, 0, c, q); }
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c) { ENTER(MPI_Allgatherv); return gather_(C_ALLGATHERV, s, sn, st, r, 0, rc, rd, rt, 0, c, nullptr); }
int MPI_Iallgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Iallgatherv); return gather_(C_ALLGATHERV, s, sn, st, r, 0, rc, rd, rt, 0, c, q); }
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { ENTER(MPI_Scatter); return scatter_(C_SCATTER, s, sn, nullptr, nullptr, st, r, rn, rt, root, c, nullptr); }
int MPI_Iscatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Iscatter); return scatter_(C_SCATTER, s, sn, nullptr, nullptr, st, r, rn, rt, root, c, q); }
int MPI_Scatterv(const void* s, const int* sc, const int* sd, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { ENTER(MPI_Scatterv); return scatter_(C_SCATTERV, s, 0, sc, sd, st, r, rn, rt, root, c, nullptr); }
int MPI_Iscatterv(const void* s, const int* sc, const int* sd, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Iscatterv); return scatter_(C_SCATTERV, s, 0, sc, sd, st, r, rn, rt, root, c, q); }
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { ENTER(MPI_Alltoall); return alltoall_(C_ALLTOALL, s, sn, nullptr, nullptr, st, r, rn, nullptr, nullptr, rt, c, nullptr); }
int MPI_Ialltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Ialltoall); return alltoall_(C_ALLTOALL, s, sn, nullptr, nullptr, st, r, rn, nullptr, nullptr, rt, c, q); }
int MPI_Alltoallv(const void* s, const int* sc, const int* sd, MPI_Datatype st, void* r, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c) { ENTER(MPI_Alltoallv); return alltoall_(C_ALLTOALLV, s, 0, sc, sd, st, r, 0, rc, rd, rt, c, nullptr); }
int MPI_Ialltoallv(const void* s, const int* sc, const int* sd, MPI_Datatype st, void* r, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c, MPI_Request* q) { ENTER(MPI_Ialltoallv); return alltoall_(C_ALLTOALLV, s, 0, sc, sd, st, r, 0, rc, rd, rt, c, q); }

}  // extern "C"
