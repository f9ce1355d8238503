// Wire protocol between a simulated rank and the simulator, and the per-rank
// shared page through which a rank leaves its counters behind even when killed.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

enum Op : uint32_t {
  OP_START = 1,
  OP_INIT,
  OP_FINALIZE,
  OP_ABORT,
  OP_SEND,        // a0 comm, a1 dst(world) a2 tag a3 flags(1 blocking,2 sync,4 ready) ; payload
  OP_RECV,        // a0 comm, a1 src(world or -1) a2 tag(or -1) a3 capacity a4 blocking
  OP_PROBE,       // a0 comm a1 src a2 tag a3 blocking
  OP_COLL,        // a0 comm a1 kind a2 root a3 opcode a4 typecode a5 blocking a6 count-signature ; payload (per-destination sizes inside)
  OP_WAIT,        // a0 mode (0 all, 1 any, 2 some) a1 n ; payload ids
  OP_TEST,        // same as WAIT but nonblocking
  OP_REQFREE,     // a0 id
  OP_YIELD,       // a0 what
  OP_USAGE,       // payload text : erroneous use of the message layer found by the rank-side stub
  OP_NOTE,        // payload text : observation reported by a harness program
  OP_POLL         // Wtime etc.
};

enum CollKind : int64_t {
  C_BARRIER = 1, C_BCAST, C_REDUCE, C_ALLREDUCE, C_GATHER, C_GATHERV, C_SCATTER, C_SCATTERV,
  C_ALLGATHER, C_ALLGATHERV, C_ALLTOALL, C_ALLTOALLV, C_SCAN, C_EXSCAN, C_REDUCE_SCATTER,
  C_COMM_SPLIT, C_COMM_DUP, C_COMM_CREATE, C_COMM_FREE
};

struct Hdr {
  uint32_t op;
  uint32_t len;
  int64_t  a[8];
};

enum IoKind : uint8_t {
  IO_OPEN = 1, IO_READ, IO_WRITE, IO_SEEK, IO_TRUNC, IO_SYNC, IO_CLOSE, IO_UNLINK, IO_RENAME, IO_STAT
};
enum FileClass : uint8_t { FC_OTHER = 0, FC_DECK, FC_MESH, FC_OUT, FC_LOG, FC_CONTACT };

struct IoEntry {
  uint8_t  kind, cls, wr, fault;
  int32_t  rpc;      // number of RPCs before it
  int32_t  colls;    // number of collectives started before it
  int32_t  numrecs;  // for close of an output: record count on disk; -1 otherwise
  int64_t  bytes;
};

constexpr int MAXIO = 1 << 18;
constexpr int MAXMETER = 1 << 16;

struct RankShm {
  uint32_t nio;        // tracked I/O operations so far
  uint32_t nrpc;       // RPCs so far
  uint32_t ncoll;      // collectives started so far
  uint64_t nalloc;     // allocation calls (malloc family) since main started
  uint64_t nallocx;    // operator-new calls made from NimbleSM's own code
  uint32_t nclock;     // clock readings
  uint32_t fired_io, fired_alloc, fired_clock, fired_kill, absorbed;
  uint32_t closes[8];  // closes of tracked files by class, begun
  uint32_t finalized, inited, main_returned;
  int32_t  main_rc;
  char     file[16][48];   // names of tracked files, for reporting
  uint32_t nmeter;     // samples of live heap bytes (low 48 bits) and open descriptors (high 16 bits)
  uint64_t meter[MAXMETER];
  IoEntry  io[MAXIO];
};

// fault kinds on I/O
enum FaultKind : int {
  F_NONE = 0, F_EIO, F_ENOSPC, F_EACCES, F_EMFILE, F_ENOENT, F_TORN_ENOSPC, F_TORN_EIO,
  F_KILL_BEFORE, F_KILL_AFTER, F_KILL_MID, F_SHORT, F_EINTR
};

struct IoFault {
  int     rank;
  int64_t nth;      // tracked-op index at which it fires
  int     kind;
  int     sticky;   // keeps failing every later op of the same kind family (full disk)
};

struct ClockPlan {
  double  base   = 1.7e9;   // seconds
  double  drift  = 1.0;
  int     freeze = 0;
  std::vector<std::pair<int64_t, double>> jumps;   // (reading index, seconds added)
};

struct Scenario {
  std::string cwd;
  std::string prog = "nimble";
  int nranks = 1;
  std::vector<std::string> args;
  uint64_t seed = 0;
  int replay = 0;
  // profile: probability (per mille) that a decision of a kind is non default
  int p_cpu = 0, p_msg = 0, p_req = 0, p_rdv = 0, p_sync = 0, p_yield = 0;
  int slow_rank = -1; int slow_factor = 1;
  int fold = 0;       // 0 rank order, 1 reversed
  int poison = 1;
  int perturb = 0;
  std::vector<IoFault> iof;
  std::vector<std::pair<int,int64_t>> allocf;   // rank, nth
  std::vector<int> alloc_sticky;
  std::vector<int> allocf_mode;                 // 0 anywhere, 1 only calls made from the executable
  std::vector<std::pair<int,int64_t>> killrpc;  // rank, nth rpc
  std::vector<ClockPlan> clocks;
  int64_t rpc_limit = 400000;
  int cpu_limit = 30;
  int wall_limit = 120;
  int trace = 0;
  int meter = 0;
  std::vector<std::vector<int64_t>> dec;        // kind, rank, seq, value
};

extern Scenario g_scn;
extern RankShm* g_shm;     // this rank's page, null in the server
extern int      g_rank;    // -1 in the server
extern int      g_in_sim;   // >0 while inside the simulator's own rank-side code
struct SimGuard { SimGuard() { ++g_in_sim; } ~SimGuard() { --g_in_sim; } };
extern int64_t  g_simnow;  // ns, as of the last reply

// provided by simmpi.cc
void rank_transport_init(int fd);
void rpc(const Hdr& h, const void* payload, Hdr& rep, std::string& repdata);
void sim_note(const std::string& text);
void sim_usage(const std::string& text);
void sim_yield(int what);
// provided by simio.cc
void io_rank_begin();
void sim_meter();
extern int64_t sim_live_comms, sim_waste;
ssize_t sys_read(int fd, void* b, size_t n);
ssize_t sys_write(int fd, const void* b, size_t n);
