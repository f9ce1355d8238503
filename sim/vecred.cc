// Drives VectorCommunicator on generated sharing patterns and compares every
// entry with the single-copy sum.  Input file: see py/checks/P04.py.
#include <cinttypes>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <mpi.h>

#include "nimble_vector_communicator.h"

extern void sim_note(const std::string& text);

namespace {
uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
// contribution of one holder of one entry: exact in any order of summation
double contrib(uint64_t seed, int step, int rank, int id, int comp) {
  uint64_t h = mix(mix(mix(mix(seed + step) + rank) + (uint64_t)(uint32_t)id) + comp);
  int64_t  v = (int64_t)(h % 2000001) - 1000000;
  switch ((h >> 40) % 8) {
    case 0: return 0.0;
    case 1: return (double)v * 1048576.0;
    case 2: return (double)v / 1048576.0 * 1024;   // a multiple of 2^-10
    default: return (double)v;
  }
}
// an unshared entry may hold anything and has to keep it
double lonely(uint64_t seed, int step, int rank, int id, int comp) {
  uint64_t h = mix(mix(mix(mix(seed + step) + rank) + (uint64_t)(uint32_t)id) + comp);
  switch ((h >> 40) % 6) {
    case 0: return -0.0;
    case 1: return 4.9406564584124654e-324;
    case 2: return 1.7976931348623157e308;
    case 3: return -1.0 / 3.0;
    default: return (double)(int64_t)(h % 1000003) / 7.0;
  }
}
struct Two {
  double* d; int dim; long calls = 0; bool bad = false; long n;
  double& operator()(int i, int j) {
    ++calls;
    if (i < 0 || j < 0 || j >= dim || (long)i * dim + j >= n) { bad = true; static double sink; return sink; }
    return d[(long)i * dim + j];
  }
};
}  // namespace

int vecred_main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  int           tpetra, dim, nranks, nsums, ncomm;
  uint64_t      seed;
  in >> tpetra >> dim >> nranks >> nsums >> ncomm >> seed;
  std::vector<std::vector<std::vector<int>>> ids(ncomm, std::vector<std::vector<int>>(nranks));
  for (auto& c : ids)
    for (auto& r : c) {
      size_t n; in >> n; r.resize(n);
      for (auto& x : r) in >> x;
    }
  struct Sum { int comm, ncomp, lookup; };
  std::vector<Sum> sums(nsums);
  for (auto& s : sums) in >> s.comm >> s.ncomp >> s.lookup;
  if (!in) return 3;
  in.close();

#ifdef NIMBLE_HAVE_TRILINOS
  std::unique_ptr<Tpetra::ScopeGuard> guard;
  if (tpetra) guard.reset(new Tpetra::ScopeGuard(&argc, &argv)); else MPI_Init(&argc, &argv);
#else
  MPI_Init(&argc, &argv);
#endif
  int me;
  MPI_Comm_rank(MPI_COMM_WORLD, &me);
  long checked = 0, shared = 0;
  auto fail = [&](const std::string& t) { sim_note("wrong " + t); };
  {
    std::vector<std::unique_ptr<nimble::VectorCommunicator>> vc;
    std::vector<std::map<int, std::vector<int>>> holders(ncomm);
    for (int c = 0; c < ncomm; ++c) {
      for (int r = 0; r < nranks; ++r) for (int x : ids[c][r]) holders[c][x].push_back(r);
#ifdef NIMBLE_HAVE_TRILINOS
      comm_type cm;
      if (tpetra) cm = Tpetra::getDefaultComm();
#else
      comm_type cm = 0;
#endif
      vc.emplace_back(new nimble::VectorCommunicator(dim, ids[c][me].size(), cm));
      vc.back()->Initialize(ids[c][me]);
      // the list of shared nodes and their lowest holder
      std::vector<int> idx, low;
      vc.back()->GetPartitionBoundaryNodeLocalIds(idx, low);
      std::set<int> got;
      if (idx.size() != low.size()) fail("lengths of the partition boundary lists");
      for (size_t i = 0; i < idx.size() && i < low.size(); ++i) {
        if (idx[i] < 0 || idx[i] >= (int)ids[c][me].size()) { fail("partition boundary index " + std::to_string(idx[i])); continue; }
        int g = ids[c][me][idx[i]];
        auto& h = holders[c][g];
        if (h.size() < 2) fail("node " + std::to_string(g) + " is reported as shared and is not");
        if (!got.insert(g).second) fail("node " + std::to_string(g) + " is reported as shared twice");
        if (low[i] != h[0]) fail("lowest rank holding node " + std::to_string(g) + ": " + std::to_string(low[i]) + ", expected " + std::to_string(h[0]));
      }
      for (int g : ids[c][me]) if (holders[c][g].size() > 1 && !got.count(g)) fail("shared node " + std::to_string(g) + " is not reported as shared");
    }
    for (int s = 0; s < nsums; ++s) {
      int  c = sums[s].comm, k = sums[s].ncomp;
      auto& my = ids[c][me];
      const int G = 16;
      const double guardv = 12345.0625;
      std::vector<double> a(my.size() * k + 2 * G, guardv);
      double* d = a.data() + G;
      for (size_t i = 0; i < my.size(); ++i)
        for (int j = 0; j < k; ++j)
          d[i * k + j] = holders[c][my[i]].size() > 1 ? contrib(seed, s, me, my[i], j) : lonely(seed, s, me, my[i], j);
      if (sums[s].lookup && !tpetra) {
        Two t{d, k, 0, false, (long)my.size() * k};
        vc[c]->VectorReduction(k, t);
        if (t.bad) fail("sum " + std::to_string(s) + " asked for an entry that does not exist");
      } else
        vc[c]->VectorReduction(k, d);
      for (int g = 0; g < G; ++g)
        if (a[g] != guardv || a[a.size() - 1 - g] != guardv) { fail("sum " + std::to_string(s) + " wrote outside the field"); break; }
      int told = 0;
      for (size_t i = 0; i < my.size(); ++i)
        for (int j = 0; j < k; ++j) {
          auto&  h = holders[c][my[i]];
          double e = 0;
          if (h.size() > 1) { for (int r : h) e += contrib(seed, s, r, my[i], j); ++shared; }
          else e = lonely(seed, s, me, my[i], j);
          ++checked;
          bool ok = h.size() > 1 ? d[i * k + j] == e : !memcmp(&d[i * k + j], &e, 8);
          if (!ok && told++ < 3) {
            char b[300];
            snprintf(b, sizeof b, "sum %d, %d components: node %d (held by %zu ranks) component %d is %.17g, expected %.17g", s, k, my[i], h.size(), j, d[i * k + j], e);
            fail(b);
          }
        }
    }
  }
  sim_note("checked " + std::to_string(checked) + " " + std::to_string(shared));
#ifdef NIMBLE_HAVE_TRILINOS
  if (tpetra) guard.reset(); else MPI_Finalize();
#else
  MPI_Finalize();
#endif
  return 0;
}
