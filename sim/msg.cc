// Drives the wrappers of nimble.mpi.mpicontext.h and nimble.mpi.reduction_utils.h
// with generated payloads.  Every rank derives all ranks' payloads from the seed,
// so it knows what it has to receive.
#include <cstdio>
#include <cstring>
#include <fstream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <mpi.h>

#include "nimble.mpi.mpicontext.h"
#include "nimble.mpi.reduction_utils.h"
#include "nimble.mpi.serialization.h"

extern void sim_note(const std::string& text);

namespace {
using nimble::mpicontext;
using Ints = std::vector<int>;
uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
struct Rng {
  uint64_t s;
  uint64_t next() { return s = mix(s); }
  int below(int n) { return (int)(next() % (uint64_t)n); }
};
long g_checks = 0;
void fail(const std::string& t) { sim_note("wrong " + t); }
template <class T> void expect(const T& got, const T& want, const std::string& what) {
  ++g_checks;
  if (!(got == want)) fail(what);
}
int len_of(Rng& r) {
  switch (r.below(6)) { case 0: return 0; case 1: return 1; case 2: return r.below(4); case 3: return r.below(40); case 4: return r.below(25) == 0 ? r.below(30000) : r.below(400); default: return 1 + r.below(12); }
}
Ints ints(uint64_t seed, int n) {
  Ints v(n);
  for (int i = 0; i < n; ++i) v[i] = (int)mix(seed + i);
  return v;
}
std::string chars(uint64_t seed, int n) {
  std::string v(n, ' ');
  for (int i = 0; i < n; ++i) v[i] = (char)(33 + mix(seed + i) % 90);
  return v;
}

template <class T> T make(uint64_t seed);
template <> Ints make<Ints>(uint64_t s) { Rng r{s}; return ints(s, len_of(r)); }
template <> int make<int>(uint64_t s) { return (int)mix(s); }
template <> std::array<int, 3> make(uint64_t s) { return {{(int)mix(s), (int)mix(s + 1), (int)mix(s + 2)}}; }
template <> std::pair<int, double> make(uint64_t s) { return {(int)mix(s), (double)(int)mix(s + 1) / 3}; }
template <> std::vector<Ints> make(uint64_t s) { Rng r{s}; std::vector<Ints> v(r.below(5)); for (auto& x : v) x = make<Ints>(r.next()); return v; }
template <> std::vector<std::pair<int, double>> make(uint64_t s) { Rng r{s}; std::vector<std::pair<int, double>> v(len_of(r)); for (auto& x : v) x = make<std::pair<int, double>>(r.next()); return v; }
template <> std::pair<int, Ints> make(uint64_t s) { Rng r{s}; return {r.below(1000), make<Ints>(r.next())}; }
template <> std::vector<std::pair<int, Ints>> make(uint64_t s) { Rng r{s}; std::vector<std::pair<int, Ints>> v(r.below(4)); for (auto& x : v) x = make<std::pair<int, Ints>>(r.next()); return v; }
template <> std::array<Ints, 2> make(uint64_t s) { Rng r{s}; std::array<Ints, 2> v; for (auto& x : v) x = make<Ints>(r.next()); return v; }

template <class T> void packed(const mpicontext& c, Rng& r, const char* what, int src, int dst, Ints& sb, Ints& rb, T dirty) {
  uint64_t s   = r.next();
  int      tag = r.below(1000);
  if (c.get_rank() == src) c.sendpacked(make<T>(s), dst, tag, sb);
  if (c.get_rank() == dst) {
    T got = dirty;
    c.recvpacked(got, src, tag, rb);
    expect(got, make<T>(s), std::string("packed exchange of ") + what);
  }
  // the same through memory
  Ints buf(r.below(3) ? 0 : r.below(50), 77);
  T    x = make<T>(s), y = dirty;
  nimble::serialization::pack(x, buf);
  nimble::serialization::unpack(y, buf);
  expect(y, x, std::string("pack and unpack of ") + what);
}

void ops(const mpicontext& c, Rng& r, int n, int depth) {
  const int N = c.get_size(), me = c.get_rank();
  Ints      sb, rb;   // reused, so that they hold what earlier messages left
  for (int k = 0; k < n; ++k) {
    int      op = r.below(depth ? 17 : 18);
    uint64_t s  = r.next();
    auto     pay = [&](int q) { Rng z{s + 1000003 * (uint64_t)q}; int L = len_of(z); return ints(z.next(), L); };
    auto     str = [&](int q) { Rng z{s + 1000003 * (uint64_t)q}; int L = len_of(z); return chars(z.next(), L); };
    int      root = r.below(N);
    switch (op) {
      case 0: {   // a batch of messages in one global order
        int m = 1 + r.below(12);
        for (int i = 0; i < m && N > 1; ++i) {
          int src = r.below(N), dst = (src + 1 + r.below(N - 1)) % N, tag = r.below(5), how = r.below(4), old = r.below(60);
          int L = len_of(r); uint64_t ps = r.next();
          if (me == src) { Ints v = ints(ps, L); if (how & 1) c.send({v.data(), (int)v.size()}, dst, tag); else c.send(v, dst, tag); }
          if (me == dst) {
            Ints v(old, -7), want = ints(ps, L);
            if (how == 0) { int q = c.recv(v, src, tag); expect(q, L, "count returned by recv"); expect(v, want, "payload of recv"); }
            else if (how == 1) { v.assign(L + old, -7); int q = c.recv(v.data(), src, tag, L + old); expect(q, L, "count returned by recv into a buffer"); want.resize(L + old, -7); expect(v, want, "payload of recv into a buffer"); }
            else if (how == 2) { int q = c.recv_avoid_resize(v, src, tag); expect(q, L, "count returned by recv_avoid_resize"); ++g_checks; if ((int)v.size() < L || !std::equal(want.begin(), want.end(), v.begin())) fail("payload of recv_avoid_resize"); }
            else { int q = c.recv_count(src, tag); expect(q, L, "recv_count"); c.recv(v, src, tag); expect(v, want, "payload of recv after recv_count"); }
          }
        }
        break;
      }
      case 1: {
        int m = 1 + r.below(8);
        for (int i = 0; i < m && N > 1; ++i) {
          int src = r.below(N), dst = (src + 1 + r.below(N - 1)) % N;
          switch (r.below(8)) {
            case 0: packed<Ints>(c, r, "a vector", src, dst, sb, rb, Ints(5, 9)); break;
            case 1: packed<int>(c, r, "an integer", src, dst, sb, rb, 9); break;
            case 2: packed<std::array<int, 3>>(c, r, "an array", src, dst, sb, rb, {{1, 2, 3}}); break;
            case 3: packed<std::vector<Ints>>(c, r, "a vector of vectors", src, dst, sb, rb, std::vector<Ints>(2, Ints(3, 1))); break;
            case 4: packed<std::vector<std::pair<int, double>>>(c, r, "a vector of pairs", src, dst, sb, rb, {{1, 2.0}}); break;
            case 5: packed<std::pair<int, Ints>>(c, r, "a pair with a vector", src, dst, sb, rb, {1, Ints(2, 2)}); break;
            case 6: packed<std::vector<std::pair<int, Ints>>>(c, r, "a vector of pairs with vectors", src, dst, sb, rb, {}); break;
            case 7: packed<std::array<Ints, 2>>(c, r, "an array of vectors", src, dst, sb, rb, {{Ints(1, 1), Ints()}}); break;
          }
        }
        break;
      }
      case 2: {
        auto got = c.gather(pay(me), root);
        std::vector<Ints> want;
        if (me == root) for (int q = 0; q < N; ++q) want.push_back(pay(q));
        expect(got, want, "gather");
        break;
      }
      case 3: {
        std::vector<Ints> src;
        if (me == root) for (int q = 0; q < N; ++q) src.push_back(pay(q));
        expect(c.scatter(root, src), pay(me), "scatter");
        break;
      }
      case 4: { auto got = c.allgather_to_vector((int)mix(s + me)); Ints want(N); for (int q = 0; q < N; ++q) want[q] = (int)mix(s + q); expect(got, want, "allgather_to_vector of an integer"); break; }
      case 5: { auto got = c.allgather_to_vector((size_t)mix(s + me)); std::vector<size_t> want(N); for (int q = 0; q < N; ++q) want[q] = mix(s + q); expect(got, want, "allgather_to_vector of a size"); break; }
      case 6: { auto got = c.allgather_to_vector(make<std::array<int, 3>>(s + 7 * me)); std::vector<std::array<int, 3>> want; for (int q = 0; q < N; ++q) want.push_back(make<std::array<int, 3>>(s + 7 * q)); expect(got, want, "allgather_to_vector of an array"); break; }
      case 7: {
        int v = (int)mix(s + me);
        if (c.is_root()) { Ints want(N); for (int q = 0; q < N; ++q) want[q] = (int)mix(s + q); expect(c.gather_recieve(v), want, "gather of integers"); } else c.gather_send(v);
        break;
      }
      case 8: {
        auto v = make<std::array<int, 3>>(s + 7 * me);
        if (c.is_root()) { std::vector<std::array<int, 3>> want; for (int q = 0; q < N; ++q) want.push_back(make<std::array<int, 3>>(s + 7 * q)); expect(c.gather_recieve(v), want, "gather of arrays"); } else c.gather_send(v);
        break;
      }
      case 9: {
        Rng z{s}; int L = len_of(z);
        Ints v = ints(s + 131071ull * me, L);
        if (c.is_root()) { Ints want; for (int q = 0; q < N; ++q) { Ints w = ints(s + 131071ull * q, L); want.insert(want.end(), w.begin(), w.end()); } expect(c.gather_recieve(v.data(), L), want, "gather of blocks"); } else c.gather_send(v.data(), L);
        break;
      }
      case 10: { int v = c.is_root() ? (int)s : -1; c.bcast(v); expect(v, (int)s, "broadcast of an integer"); break; }
      case 11: { std::array<int, 3> v{{-1, -1, -1}}; if (c.is_root()) v = make<std::array<int, 3>>(s); c.bcast(v); expect(v, make<std::array<int, 3>>(s), "broadcast of an array"); break; }
      case 12: {
        std::string want;
        if (c.is_root()) for (int q = 0; q < N; ++q) want += str(q);
        int how = r.below(3);
        if (how == 0) expect(c.catenate_gatherv(str(me)), want, "catenate_gatherv");
        else {
          std::ostringstream o;
          if (how == 1) c.print(str(me), o);
          else { c.println(str(me), o); want.clear(); if (c.is_root()) for (int q = 0; q < N; ++q) want += str(q) + "\n"; }
          expect(o.str(), want, how == 1 ? "print" : "println");
        }
        break;
      }
      case 13: {
        std::string a = chars(s + 1, r.below(4)), b = chars(s + 2, r.below(4)), e = chars(s + 3, r.below(4)), want;
        if (c.is_root()) { want = a; for (int q = 0; q < N; ++q) { if (q) want += b; want += str(q); } want += e; }
        if (r.below(2)) expect(c.catenate_gatherv_format(str(me), a, b, e), want, "catenate_gatherv_format");
        else { std::ostringstream o; c.print_formatted(str(me), a, b, e, o); expect(o.str(), want, "print_formatted"); }
        break;
      }
      case 14: {   // lengths, gatherv, transform at the root, scatterv
        Ints mine = pay(me);
        Ints counts = c.allgather_to_vector((int)mine.size()), disp(N, 0);
        for (int q = 1; q < N; ++q) disp[q] = disp[q - 1] + counts[q - 1];
        Ints back(mine.size(), -3);
        if (c.is_root()) {
          Ints all(disp[N - 1] + counts[N - 1]), want;
          c.gatherv_recieve(mine, all, counts, disp);
          for (int q = 0; q < N; ++q) { Ints w = pay(q); want.insert(want.end(), w.begin(), w.end()); }
          expect(all, want, "gatherv");
          for (auto& x : all) x ^= 0x55;
          c.scatterv_send(all, counts, disp, back);
        } else {
          c.gatherv_send(mine);
          c.scatterv_recieve(back);
        }
        for (auto& x : mine) x ^= 0x55;
        expect(back, mine, "scatterv");
        break;
      }
      case 15: {   // renumbering
        int  range = 1 + r.below(200), maxn = 0;
        bool wild = r.below(2), none = !r.below(4);
        std::vector<Ints> id(N);
        for (int q = 0; q < N; ++q) {
          std::set<int> u; Rng z{s + 31337ull * q}; int L = z.below(60);
          if (none && q && z.below(2)) L = 0;
          for (int i = 0; i < L; ++i) { int x = z.below(range); u.insert(wild ? (int)(mix(s ^ x) & 0x7fffffff) : x); }
          id[q].assign(u.begin(), u.end());
          for (int i = (int)id[q].size() - 1; i > 0; --i) std::swap(id[q][i], id[q][z.below(i + 1)]);
          maxn = std::max<int>(maxn, id[q].size());
        }
        Ints got = nimble::PackIDSpace(id[me], maxn, c);
        Ints cnt(N), dsp(N, 0); int tot = 0;
        for (int q = 0; q < N; ++q) { cnt[q] = id[q].size(); dsp[q] = tot; tot += cnt[q]; }
        expect(got.size(), id[me].size(), "length of renumbered ids");
        got.resize(id[me].size());
        Ints all(tot + 1);
        MPI_Allgatherv(got.data(), (int)got.size(), MPI_INT, all.data(), cnt.data(), dsp.data(), MPI_INT, c.get_comm());
        std::map<int, int> to, from;
        ++g_checks;
        bool ok = true;
        for (int q = 0; q < N; ++q)
          for (int i = 0; i < cnt[q]; ++i) {
            int o = id[q][i], w = all[dsp[q] + i];
            if (to.emplace(o, w).first->second != w || from.emplace(w, o).first->second != o) ok = false;
          }
        for (auto& p : from) if (p.first < 0 || p.first >= (int)from.size()) ok = false;
        if (!ok) fail("renumbering is not one-to-one onto 0..n-1");
        // rank 0's ids come first, then what rank 1 adds, and so on, whatever the arrival order
        int top = -1;
        for (int q = 0; q < N && ok; ++q) {
          int low = top;
          for (int i = 0; i < cnt[q]; ++i) top = std::max(top, all[dsp[q] + i]);
          std::set<int> fresh;
          for (int i = 0; i < cnt[q]; ++i) if (all[dsp[q] + i] > low) fresh.insert(all[dsp[q] + i]);
          if ((int)fresh.size() != top - low) { ok = false; fail("renumbering is not in rank order"); }
        }
        auto each = nimble::GetNumberOfNodesAssignedToEachRank(id[me], c);
        expect(Ints(each.get(), each.get() + N), cnt, "numbers of nodes of the ranks");
        bool any = true; int mx = -1;
        for (auto& v : id) { if (v.empty()) any = false; for (int x : v) mx = std::max(mx, x); }
        if (any) expect(nimble::GetMaximumNodeId(id[me], c), mx, "largest node id");
        break;
      }
      case 16: {   // two unrelated exchanges on duplicated communicators, crossing
        MPI_Comm d; MPI_Comm_dup(c.get_comm(), &d);
        mpicontext e(d);
        expect(e.get_size(), N, "size of a duplicate"); expect(e.get_rank(), me, "rank in a duplicate");
        if (N > 1) {
          int nx = (me + 1) % N, pv = (me + N - 1) % N, tag = r.below(9);
          Ints a = pay(me), b = pay(me + N), ga, gb;
          // ring, odd ranks receive first; the two rings use the same tag on different communicators
          if (me % 2 == 0) { c.send(a, nx, tag); e.send(b, nx, tag); }
          if (me % 2 == 1 || N % 2 == 0 || me != 0) { c.recv(ga, pv, tag); e.recv(gb, pv, tag); }
          if (me % 2 == 1) { c.send(a, nx, tag); e.send(b, nx, tag); }
          if (!(me % 2 == 1 || N % 2 == 0 || me != 0)) { c.recv(ga, pv, tag); e.recv(gb, pv, tag); }
          expect(ga, pay(pv), "ring"); expect(gb, pay(pv + N), "ring on a duplicate");
        }
        MPI_Comm_free(&d);
        break;
      }
      case 17: {   // the same operations within subgroups
        int  ncol = 1 + r.below(3);
        auto col = [&](int q) { return (int)(mix(s + 17 * q) % (ncol + 1)); };   // colour ncol: left out
        bool rev = r.below(2);
        int  mine = col(me) == ncol ? MPI_UNDEFINED : col(me);
        MPI_Comm sub = rev ? c.split_by_color(mine, N - me) : c.split_by_color(mine);
        int  m = 1 + r.below(6);
        uint64_t ss = r.next();
        ++g_checks;
        if ((sub == MPI_COMM_NULL) != (mine == MPI_UNDEFINED)) fail("membership of a split");
        if (sub != MPI_COMM_NULL) {
          mpicontext e(sub);
          Ints members;
          for (int q = 0; q < N; ++q) if (col(q) == mine) members.push_back(q);
          if (rev) std::reverse(members.begin(), members.end());
          expect(e.get_size(), (int)members.size(), "size of a split");
          ++g_checks;
          if (e.get_rank() >= (int)members.size() || members[e.get_rank()] != me) fail("rank in a split");
          else { Rng z{ss + mine}; ops(e, z, m, depth + 1); }
          MPI_Comm_free(&sub);
        }
        break;
      }
    }
  }
}
}  // namespace

int msg_main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  {
    mpicontext c(MPI_COMM_WORLD);
    Rng        r{strtoull(argv[1], nullptr, 10)};
    ops(c, r, atoi(argv[2]), 0);
  }
  sim_note("checked " + std::to_string(g_checks));
  MPI_Finalize();
  return 0;
}
