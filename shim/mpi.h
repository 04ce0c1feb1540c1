// Stand-in for an MPI library: ranks are threads of one process (vmpi::as) or processes forked over a shared map.
// What it watches: a message that does not fit what the receiver expects, ranks that wait for each other for ever
// (decided exactly: every me waits and no condition can come true), messages nobody has received, datatypes nobody has freed.
// Send is allowed to return before the receiver takes the message, or is not: vmpi::W::sync (the standard permits both).
#ifndef VERIF_MPI_H
#define VERIF_MPI_H
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstddef>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <mutex>
#include <sys/mman.h>
typedef int MPI_Datatype; typedef intptr_t MPI_Aint; typedef int MPI_Comm; typedef int MPI_Info;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
enum { MPI_DATATYPE_NULL = 0, MPI_DOUBLE, MPI_INT, MPI_UNSIGNED, MPI_UNSIGNED_CHAR, MPI_UNSIGNED_SHORT, MPI_UNSIGNED_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_CHAR, MPI_BYTE, MPI_LONG, MPI_LONG_LONG };
enum { MPI_COMM_WORLD = 1, MPI_INFO_NULL = 0, MPI_SUCCESS = 0, MPI_ANY_TAG = -1 };
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_BOTTOM ((void*)0)
namespace MPI
{
  struct Exception { std::string s; Exception(const std::string& x) : s(x) {} const char* Get_error_string() const { return s.c_str(); } int Get_error_code() const { return 1; } };
}
namespace vmpi
{
  const int MAXR = 8; const size_t RING = 1 << 22;
  struct Pair { uint64_t in, out; uint64_t sent, taken; char* ring; };
  struct Wait { int kind, peer; uint64_t n; }; // 0 runs, 1 its message to be taken, 2 a message from peer, 3 barrier, 4 has ended, 5 space
  struct W
  {
    pthread_mutex_t m; pthread_cond_t c; int size; bool sync; int broken; char why[400];
    int at_barrier; uint64_t generation; Wait w[MAXR]; Pair p[MAXR][MAXR]; uint64_t messages, bytes, barriers, types_made, types_freed;
  };
  inline W*& world() { static W* w = nullptr; return w; }
  inline thread_local int me = 0;
  inline void (*at_finalize)() = nullptr;
  inline W* make(int size, bool sync)
  {
    size_t need = sizeof(W) + (size_t)size * size * RING; void* at = mmap(nullptr, need, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (at == MAP_FAILED) { perror("mmap"); abort(); }
    W* w = new (at) W(); memset((void*)w, 0, sizeof *w); w->size = size; w->sync = sync; char* r = (char*)at + sizeof(W); for (int i = 0; i < size; ++i) for (int j = 0; j < size; ++j) { w->p[i][j].ring = r; r += RING; }
    pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&w->m, &a);
    pthread_condattr_t b; pthread_condattr_init(&b); pthread_condattr_setpshared(&b, PTHREAD_PROCESS_SHARED); pthread_cond_init(&w->c, &b); return w;
  }
  inline void drop(W* w) { size_t need = sizeof(W) + (size_t)w->size * w->size * RING; munmap((void*)w, need); }
  struct Struct { std::vector<int> n; std::vector<MPI_Aint> at; std::vector<MPI_Datatype> t; bool committed; };
  inline std::map<int, Struct>& types() { static std::map<int, Struct> t; return t; }
  inline std::mutex& tm() { static std::mutex m; return m; }
  inline size_t basic(MPI_Datatype t)
  {
    switch (t) { case MPI_DOUBLE: case MPI_UNSIGNED_LONG: case MPI_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_LONG_LONG: return 8; case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4;
      case MPI_UNSIGNED_SHORT: return 2; case MPI_UNSIGNED_CHAR: case MPI_CHAR: case MPI_BYTE: return 1; } return 0;
  }
  [[noreturn]] inline void stop(const std::string& s)
  {
    W* w = world(); pthread_mutex_lock(&w->m); if (!w->broken) { w->broken = 1; snprintf(w->why, sizeof w->why, "%s", s.c_str()); } pthread_cond_broadcast(&w->c); std::string y = w->why; pthread_mutex_unlock(&w->m); throw MPI::Exception(y);
  }
  // the places a (buffer, count, type) covers
  inline std::vector<std::pair<char*, size_t>> places(void* buf, int count, MPI_Datatype t)
  {
    std::vector<std::pair<char*, size_t>> o; if (size_t b = basic(t)) { o.push_back({(char*)buf, b * count}); return o; }
    Struct s; { std::lock_guard<std::mutex> g(tm()); auto i = types().find(t); if (i != types().end()) s = i->second; else s.committed = false; }
    if (!s.committed) stop("use of a datatype that is not committed");
    if (count != 1) { if (!buf) stop("several items from MPI_BOTTOM"); size_t e = 0; for (size_t k = 0; k < s.n.size(); ++k) e = std::max(e, (size_t)s.at[k] + basic(s.t[k]) * s.n[k]); e = (e + 7) / 8 * 8; for (int c = 0; c < count; ++c) for (size_t k = 0; k < s.n.size(); ++k) o.push_back({(char*)buf + c * e + s.at[k], basic(s.t[k]) * s.n[k]}); return o; }
    for (size_t k = 0; k < s.n.size(); ++k) o.push_back({(char*)buf + s.at[k], basic(s.t[k]) * (size_t)s.n[k]});
    return o;
  }
  inline bool ready(W* w, int r)
  {
    Wait& q = w->w[r];
    switch (q.kind) { case 0: return true; case 1: return w->p[r][q.peer].taken >= q.n; case 2: return w->p[q.peer][r].in != w->p[q.peer][r].out; case 3: return w->generation != q.n; case 5: return RING - (w->p[r][q.peer].in - w->p[r][q.peer].out) >= q.n; }
    return false;
  }
  inline void judge(W* w) // under the lock
  {
    bool waits = false; for (int r = 0; r < w->size; ++r) { if (ready(w, r)) return; if (w->w[r].kind != 4) waits = true; }
    if (!waits || w->broken) return;
    std::string s = "the nodes wait for each other:"; static const char* n[] = {"runs", "its message to be taken by", "a message from", "a barrier", "has ended", "space towards"};
    for (int r = 0; r < w->size; ++r) { s += " [" + std::to_string(r) + "] " + n[w->w[r].kind]; if (w->w[r].kind == 1 || w->w[r].kind == 2) s += " " + std::to_string(w->w[r].peer); }
    w->broken = 2; snprintf(w->why, sizeof w->why, "%s", s.c_str()); pthread_cond_broadcast(&w->c);
  }
  inline void wait(W* w, int kind, int peer, uint64_t n) // under the lock
  {
    w->w[me] = {kind, peer, n};
    while (!w->broken && !ready(w, me)) { judge(w); if (w->broken) break; pthread_cond_wait(&w->c, &w->m); }
    w->w[me] = {0, 0, 0}; if (w->broken) { std::string y = w->why; pthread_mutex_unlock(&w->m); throw MPI::Exception(y); }
  }
  inline void ended() { W* w = world(); pthread_mutex_lock(&w->m); w->w[me] = {4, 0, 0}; judge(w); pthread_mutex_unlock(&w->m); }
  inline void begins(int r) { me = r; W* w = world(); pthread_mutex_lock(&w->m); w->w[r] = {0, 0, 0}; pthread_mutex_unlock(&w->m); }
  inline uint64_t pending(W* w) { uint64_t n = 0; for (int i = 0; i < w->size; ++i) for (int j = 0; j < w->size; ++j) n += w->p[i][j].in - w->p[i][j].out; return n; }
  inline void put(Pair& p, const void* d, size_t n) { const char* s = (const char*)d; for (size_t k = 0; k < n;) { size_t o = (p.in + k) % RING, m = std::min(n - k, RING - o); memcpy(p.ring + o, s + k, m); k += m; } p.in += n; }
  inline void get(Pair& p, void* d, size_t n) { char* s = (char*)d; for (size_t k = 0; k < n;) { size_t o = (p.out + k) % RING, m = std::min(n - k, RING - o); memcpy(s + k, p.ring + o, m); k += m; } p.out += n; }
}
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = vmpi::me; return 0; }
inline int MPI_Comm_size(MPI_Comm, int* r) { *r = vmpi::world()->size; return 0; }
inline int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint)p; return 0; }
inline int MPI_Type_create_struct(int n, const int* l, const MPI_Aint* at, const MPI_Datatype* t, MPI_Datatype* o)
{
  std::lock_guard<std::mutex> g(vmpi::tm()); static int next = 1000; vmpi::Struct s; for (int k = 0; k < n; ++k) { s.n.push_back(l[k]); s.at.push_back(at[k]); s.t.push_back(t[k]); } s.committed = false;
  vmpi::types()[++next] = s; *o = next; __atomic_add_fetch(&vmpi::world()->types_made, 1, __ATOMIC_RELAXED); return 0;
}
inline int MPI_Type_commit(MPI_Datatype* t) { std::lock_guard<std::mutex> g(vmpi::tm()); auto i = vmpi::types().find(*t); if (i != vmpi::types().end()) i->second.committed = true; return 0; }
inline int MPI_Type_free(MPI_Datatype* t)
{
  { std::lock_guard<std::mutex> g(vmpi::tm()); if (vmpi::types().erase(*t)) { __atomic_add_fetch(&vmpi::world()->types_freed, 1, __ATOMIC_RELAXED); *t = MPI_DATATYPE_NULL; return 0; } }
  vmpi::stop("datatype is freed twice");
}
inline int MPI_Send(const void* buf, int count, MPI_Datatype t, int to, int tag, MPI_Comm)
{
  using namespace vmpi; W* w = world(); if (to < 0 || to >= w->size || to == me) stop("send to node " + std::to_string(to) + " of " + std::to_string(w->size));
  auto pl = places((void*)buf, count, t); uint64_t n = 0; for (auto& p : pl) n += p.second; std::string data; data.reserve(n); for (auto& p : pl) data.append(p.first, p.second);
  pthread_mutex_lock(&w->m); if (w->broken) wait(w, 0, 0, 0); Pair& p = w->p[me][to];
  if (RING - (p.in - p.out) < n + 16) wait(w, 5, to, n + 16);
  uint64_t head[2] = {n, (uint64_t)(int64_t)tag}; put(p, head, 16); put(p, data.data(), n); uint64_t seq = ++p.sent; ++w->messages; w->bytes += n; pthread_cond_broadcast(&w->c);
  if (w->sync) wait(w, 1, to, seq);
  pthread_mutex_unlock(&w->m); return 0;
}
inline int MPI_Ssend(const void* buf, int count, MPI_Datatype t, int to, int tag, MPI_Comm c) { return MPI_Send(buf, count, t, to, tag, c); }
inline int MPI_Recv(void* buf, int count, MPI_Datatype t, int from, int tag, MPI_Comm, MPI_Status* st)
{
  using namespace vmpi; W* w = world(); if (from < 0 || from >= w->size || from == me) stop("receive from node " + std::to_string(from) + " of " + std::to_string(w->size));
  auto pl = places(buf, count, t); uint64_t n = 0; for (auto& p : pl) n += p.second;
  pthread_mutex_lock(&w->m); if (w->broken) wait(w, 0, 0, 0); Pair& p = w->p[from][me]; if (p.in == p.out) wait(w, 2, from, 0);
  uint64_t head[2]; get(p, head, 16); std::string data(head[0], 0); get(p, &data[0], head[0]); ++p.taken; pthread_cond_broadcast(&w->c); pthread_mutex_unlock(&w->m);
  if (head[0] != n) stop("node " + std::to_string(me) + " expects a message of " + std::to_string(n) + " bytes from node " + std::to_string(from) + ", which has sent " + std::to_string(head[0]));
  if (tag != MPI_ANY_TAG && (int64_t)head[1] != tag) stop("node " + std::to_string(me) + " expects a message with tag " + std::to_string(tag) + ", and gets one with tag " + std::to_string((int64_t)head[1]));
  size_t o = 0; for (auto& q : pl) { memcpy(q.first, data.data() + o, q.second); o += q.second; }
  if (st) { st->MPI_SOURCE = from; st->MPI_TAG = (int)head[1]; st->MPI_ERROR = 0; } return 0;
}
// both directions at once: it never makes the neighbour wait
inline int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stp, int to, int stag, void* rb, int rn, MPI_Datatype rt, int from, int rtag, MPI_Comm c, MPI_Status* st)
{
  using namespace vmpi; W* w = world(); auto pl = places((void*)sb, sn, stp); uint64_t n = 0; for (auto& p : pl) n += p.second; std::string data; for (auto& p : pl) data.append(p.first, p.second);
  pthread_mutex_lock(&w->m); if (w->broken) wait(w, 0, 0, 0); Pair& p = w->p[me][to]; if (RING - (p.in - p.out) < n + 16) wait(w, 5, to, n + 16);
  uint64_t head[2] = {n, (uint64_t)(int64_t)stag}; put(p, head, 16); put(p, data.data(), n); uint64_t seq = ++p.sent; ++w->messages; w->bytes += n; pthread_cond_broadcast(&w->c); pthread_mutex_unlock(&w->m);
  MPI_Recv(rb, rn, rt, from, rtag, c, st); pthread_mutex_lock(&w->m); if (w->sync) wait(w, 1, to, seq); pthread_mutex_unlock(&w->m); return 0;
}
inline int MPI_Barrier(MPI_Comm)
{
  using namespace vmpi; W* w = world(); pthread_mutex_lock(&w->m); if (w->broken) wait(w, 0, 0, 0);
  if (++w->at_barrier == w->size) { w->at_barrier = 0; ++w->generation; ++w->barriers; pthread_cond_broadcast(&w->c); } else wait(w, 3, 0, w->generation);
  pthread_mutex_unlock(&w->m); return 0;
}
namespace MPI
{
  enum { ERRORS_THROW_EXCEPTIONS = 1 };
  struct Comm
  {
    int Get_size() const { return vmpi::world()->size; } int Get_rank() const { return vmpi::me; } void Set_errhandler(int) const {}
    void Abort(int c) const { fflush(stdout); _Exit(c & 255); } void Barrier() const { MPI_Barrier(MPI_COMM_WORLD); } operator int() const { return MPI_COMM_WORLD; }
  };
  static Comm COMM_WORLD;
  inline void Init() {} inline void Init(int&, char**&) {}
  inline void Finalize() { if (vmpi::at_finalize) vmpi::at_finalize(); vmpi::ended(); }
}
#endif
