// The OpenMP runtime of P16: libgomp synchronises with futexes ThreadSanitizer cannot see, so the entry points gcc
// emits are provided here on mutexes it understands. Teams of random sizes (VSHIM_SEED), more threads than iterations
// included, ids dealt in random order, random delays; what was observed goes to VSHIM_GOMP.
#include <atomic>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <vector>
#include <sched.h>
#include <time.h>
namespace
{
  struct Team
  {
    unsigned n = 1; std::mutex m; std::condition_variable cv; unsigned waiting = 0; unsigned long generation = 0;
    long next = 0, end = 0, incr = 1, chunk = 1; bool loop = false; unsigned left = 0; unsigned sections = 0, section = 0; unsigned long singles = 0;
  };
  struct Local { Team* team = nullptr; unsigned id = 0; unsigned long single = 0; unsigned long long rnd = 0; };
  thread_local Local me;
  struct Job { void (*fn)(void*); void* data; Team* team; unsigned id; unsigned delay; };
  struct Worker { std::mutex m; std::condition_variable cv; Job job{}; bool has = false; };
  std::mutex done_m; std::condition_variable done_cv; unsigned running = 0;
  std::vector<Worker*> pool;
  std::mutex* big() { static auto* m = new std::mutex; return m; }
  std::mutex* named(void** p) { static auto* g = new std::mutex; static auto* t = new std::map<void**, std::mutex*>; std::lock_guard<std::mutex> l(*g); auto& x = (*t)[p]; if (!x) x = new std::mutex; return x; }
  std::atomic<long> regions{0}, bodies{0}, active{0}, most{0}, criticals{0}, contended{0}, overlapped{0}, barriers{0};
  std::set<unsigned>* sizes = new std::set<unsigned>; std::set<unsigned long long>* orders = new std::set<unsigned long long>; unsigned long long order = 0;
  unsigned long long state = [] { const char* s = getenv("VSHIM_SEED"); return 88172645463325252ull ^ (s ? strtoull(s, 0, 10) * 0x9E3779B97F4A7C15ull : 0); }();
  unsigned rnd(unsigned n) { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return (state >> 11) % n; }
  void pause_for(unsigned d) { if (d == 1) sched_yield(); else if (d) { struct timespec t = {0, (long)d * 1000}; nanosleep(&t, nullptr); } }
  void body(const Job& j)
  {
    Local keep = me; me = Local(); me.team = j.team; me.id = j.id;
    pause_for(j.delay);
    long a = ++active; long m = most; while (a > m && !most.compare_exchange_weak(m, a)) {} if (a > 1) ++overlapped;
    j.fn(j.data); ++bodies; --active;
    me = keep;
  }
  void work(Worker* w)
  {
    for (;;)
    {
      Job j; { std::unique_lock<std::mutex> l(w->m); w->cv.wait(l, [&] { return w->has; }); j = w->job; w->has = false; }
      body(j);
      std::lock_guard<std::mutex> l(done_m); order = order * 131 + j.id + 1; if (--running == 0) done_cv.notify_one();
    }
  }
  void report()
  {
    const char* f = getenv("VSHIM_GOMP"); if (!f) return; FILE* o = fopen(f, "w"); if (!o) return;
    fprintf(o, "{\"regions\":%ld,\"bodies\":%ld,\"team sizes\":%zu,\"most active\":%ld,\"overlapping bodies\":%ld,\"criticals\":%ld,\"contended criticals\":%ld,\"completion orders\":%zu}", regions.load(), bodies.load(), sizes->size(), most.load(), overlapped.load(), criticals.load(), contended.load(), orders->size()); fclose(o);
  }
  void parallel(void (*fn)(void*), void* data, unsigned want, Team& t)
  {
    static bool once = (atexit(report), true); (void)once;
    if (me.team && me.team->n > 1) { Team s; s.loop = t.loop; s.next = t.next; s.end = t.end; s.incr = t.incr; s.chunk = t.chunk; s.sections = t.sections; body({fn, data, &s, 0, 0}); return; } // nested: one thread
    static const unsigned some[] = {2, 3, 4, 5, 8, 16, 16, 33}; unsigned n = want ? want : some[rnd(8)]; t.n = n; t.left = n; ++regions; sizes->insert(n);
    while (pool.size() < n - 1 + (n == 0)) { Worker* w = new Worker; pool.push_back(w); std::thread(work, w).detach(); }
    std::vector<unsigned> ids(n); for (unsigned i = 0; i < n; ++i) ids[i] = i; for (unsigned i = n; i > 1; --i) std::swap(ids[i - 1], ids[rnd(i)]);
    unsigned mode = rnd(4); { std::lock_guard<std::mutex> l(done_m); running = n - 1; order = n; }
    auto delay = [&] { return mode == 0 ? 0 : mode == 1 ? rnd(2) : mode == 2 ? (rnd(5) ? 0 : 60 + rnd(400)) : rnd(120); };
    for (unsigned i = 0; i + 1 < n; ++i) { Worker* w = pool[i]; std::lock_guard<std::mutex> l(w->m); w->job = {fn, data, &t, ids[i + 1], delay()}; w->has = true; w->cv.notify_one(); }
    body({fn, data, &t, ids[0], delay()});
    std::unique_lock<std::mutex> l(done_m); done_cv.wait(l, [] { return running == 0; }); orders->insert(order);
  }
  bool chunk_of(long* a, long* b)
  {
    Team* t = me.team; static Team alone; if (!t) t = &alone; std::lock_guard<std::mutex> l(t->m);
    if (t->incr > 0 ? t->next >= t->end : t->next <= t->end) return false;
    *a = t->next; *b = t->next + t->chunk * t->incr; if (t->incr > 0 ? *b > t->end : *b < t->end) *b = t->end; t->next = *b; return true;
  }
  void barrier()
  {
    Team* t = me.team; if (!t || t->n < 2) return; ++barriers; std::unique_lock<std::mutex> l(t->m); unsigned long g = t->generation;
    if (++t->waiting == t->n) { t->waiting = 0; ++t->generation; t->cv.notify_all(); } else t->cv.wait(l, [&] { return t->generation != g; });
  }
  bool loop_start(long s, long e, long i, long c, long* a, long* b)
  {
    Team* t = me.team; if (t) { std::lock_guard<std::mutex> l(t->m); if (!t->loop) { t->loop = true; t->next = s; t->end = e; t->incr = i; t->chunk = c < 1 ? 1 : c; } }
    return chunk_of(a, b);
  }
  void loop_end(bool wait)
  {
    Team* t = me.team; if (!t) return; { std::lock_guard<std::mutex> l(t->m); if (--t->left == 0) { t->loop = false; t->left = t->n; } } if (wait) barrier();
  }
}
extern "C"
{
  void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { Team t; parallel(fn, data, n, t); }
#define PLOOP(name) void name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) { Team t; t.loop = true; t.next = s; t.end = e; t.incr = i; t.chunk = c < 1 ? 1 : c; parallel(fn, data, n, t); }
  PLOOP(GOMP_parallel_loop_dynamic) PLOOP(GOMP_parallel_loop_guided) PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic) PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
#define PLOOPR(name) void name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned) { Team t; t.loop = true; t.next = s; t.end = e; t.incr = i; t.chunk = 1; parallel(fn, data, n, t); }
  PLOOPR(GOMP_parallel_loop_runtime) PLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime) PLOOPR(GOMP_parallel_loop_nonmonotonic_runtime)
#define START(name) bool name(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); }
  START(GOMP_loop_dynamic_start) START(GOMP_loop_guided_start) START(GOMP_loop_nonmonotonic_dynamic_start) START(GOMP_loop_nonmonotonic_guided_start) START(GOMP_loop_static_start)
#define NEXT(name) bool name(long* a, long* b) { return chunk_of(a, b); }
  NEXT(GOMP_loop_dynamic_next) NEXT(GOMP_loop_guided_next) NEXT(GOMP_loop_nonmonotonic_dynamic_next) NEXT(GOMP_loop_nonmonotonic_guided_next) NEXT(GOMP_loop_runtime_next) NEXT(GOMP_loop_maybe_nonmonotonic_runtime_next) NEXT(GOMP_loop_static_next)
  void GOMP_loop_end() { loop_end(true); }
  void GOMP_loop_end_nowait() { loop_end(false); }
  void GOMP_barrier() { barrier(); }
  void GOMP_critical_start() { ++criticals; if (!big()->try_lock()) { ++contended; big()->lock(); } }
  void GOMP_critical_end() { big()->unlock(); }
  void GOMP_critical_name_start(void** p) { std::mutex* m = named(p); ++criticals; if (!m->try_lock()) { ++contended; m->lock(); } }
  void GOMP_critical_name_end(void** p) { named(p)->unlock(); }
  void GOMP_atomic_start() { static auto& m = *big(); m.lock(); }
  void GOMP_atomic_end() { big()->unlock(); }
  bool GOMP_single_start() { Team* t = me.team; if (!t || t->n < 2) return true; unsigned long k = ++me.single; std::lock_guard<std::mutex> l(t->m); if (t->singles < k) { t->singles = k; return true; } return false; }
  void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
  { if (!cpy) { fn(data); return; } std::vector<char> b(size + align); char* p = (char*)(((unsigned long)b.data() + align - 1) & ~(unsigned long)(align - 1)); cpy(p, data); fn(p); }
  void GOMP_taskwait() {}
  void GOMP_taskyield() {}
  unsigned GOMP_sections_start(unsigned n) { Team* t = me.team; if (!t) return 0; std::lock_guard<std::mutex> l(t->m); if (!t->loop) { t->loop = true; t->sections = n; t->section = 0; } return t->section < t->sections ? ++t->section : 0; }
  unsigned GOMP_sections_next() { Team* t = me.team; if (!t) return 0; std::lock_guard<std::mutex> l(t->m); return t->section < t->sections ? ++t->section : 0; }
  void GOMP_sections_end() { loop_end(true); }
  void GOMP_sections_end_nowait() { loop_end(false); }
  void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) { Team t; t.loop = true; t.sections = count; parallel(fn, data, n, t); }
  int omp_get_thread_num() { return me.id; }
  int omp_get_num_threads() { return me.team ? me.team->n : 1; }
  int omp_get_max_threads() { return 33; }
  int omp_get_num_procs() { return 8; }
  int omp_in_parallel() { return me.team && me.team->n > 1; }
  void omp_set_dynamic(int) {}
  void omp_set_num_threads(int) {}
}
