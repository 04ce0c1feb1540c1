// Common scaffolding of the monitors' workload drivers.
//  * every case is generated from (seed, case index) alone
//  * every oracle evaluation is counted, every violation gets a stable key
//  * what was observed (counters, distinct states) is reported as JSON
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <thread>
#include <fcntl.h>
#include <unistd.h>

// determinism: std::random_device (seed source of the code under test) is
// interposed with a counter that is reset for every case
namespace vh { inline uint64_t rd_state = 1; }
#ifndef VH_NO_RD
extern "C" unsigned int _ZNSt13random_device9_M_getvalEv(void*);
extern "C" __attribute__((used)) unsigned int _ZNSt13random_device9_M_getvalEv(void*)
{
  uint64_t z = __atomic_add_fetch(&vh::rd_state, 0x9E3779B97F4A7C15ull, __ATOMIC_RELAXED);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return (unsigned int)(z ^ (z >> 31));
}
#endif

namespace vh
{
  struct Rng
  {
    uint64_t s;
    explicit Rng(uint64_t x = 1) : s(x) {}
    uint64_t next()
    {
      uint64_t z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
    }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }          // [0,1)
    double uni(double a, double b) { return a + (b - a) * u(); }
    double logu(double a, double b) { return exp(uni(log(a), log(b))); }
    int range(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); } // inclusive
    bool chance(double p) { return u() < p; }
    double sgn() { return (next() & 1) ? 1. : -1.; }
    template <class T> T pick(std::initializer_list<T> l)
    { return *(l.begin() + next() % l.size()); }
  };

  struct Violation { std::string key, scenario, msg; uint64_t idx; };
  struct Global
  {
    std::string name;
    uint64_t seed = 1, evals = 0, cases = 0;
    std::map<std::string, long> counters;
    std::unordered_set<uint64_t> distinct, case_sigs; // situations seen, and distinct (non-trivial) cases
    uint64_t sig = 0;
    std::vector<std::string> samples;
    std::map<std::string, int> samples_per;
    std::vector<Violation> violations;
    std::map<std::string, int> per_key;
    int status_fd = -1;
    bool verbose = false;
  };
  inline Global g;

  inline uint64_t hash_str(const std::string& s)
  {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
  }
  inline std::string fmt(const char* f, ...)
  {
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
  }
  inline std::string esc(const std::string& s)
  {
    std::string o;
    for (unsigned char c : s)
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
      else o += c;
    return o;
  }

  struct Case
  {
    uint64_t idx; Rng r; std::string scenario;
    // a violation of the property under check: `key' identifies what is broken
    void fail(const std::string& key, const std::string& msg)
    {
      if (g.per_key[key]++ < 3) g.violations.push_back({key, scenario, msg, idx});
      if (g.verbose) fprintf(stderr, "FAIL case %llu %s: %s\n", (unsigned long long)idx, key.c_str(), msg.c_str());
    }
    // an oracle evaluation
    bool ok(bool cond, const std::string& key, const std::string& msg)
    { ++g.evals; if (!cond) fail(key, msg); return cond; }
    bool near(double got, double want, double tol_abs, const std::string& key, const std::string& what)
    {
      ++g.evals;
      if (std::isfinite(got) && fabs(got - want) <= tol_abs) return true;
      fail(key, what + fmt(": got %.17g, expected %.17g (tolerance %.3g)", got, want, tol_abs));
      return false;
    }
    void saw(const std::string& counter, long n = 1) { g.counters[counter] += n; }
    // a distinct observed situation (branch signature, state class)
    void state(const std::string& s) { uint64_t h = hash_str(scenario + "|" + s); g.distinct.insert(h); g.sig = (g.sig ^ h) * 0x100000001b3ull + 1; }
    void sample(const std::string& s)
    { if (g.samples_per[scenario]++ < 2) g.samples.push_back(scenario + ": " + s); }
  };

  struct Scenario { std::string name; int weight; std::function<void(Case&)> fn; bool fresh_thread = false; };

  inline void run_case(uint64_t idx, std::vector<Scenario>& sc)
  {
    int total = 0; for (auto& s : sc) total += s.weight;
    int k = (int)(idx % (uint64_t)total); size_t which = 0;
    while (k >= sc[which].weight) { k -= sc[which].weight; ++which; }
    Rng mix(g.seed * 0x2545F4914F6CDD1Dull + idx * 0x9E3779B97F4A7C15ull + hash_str(g.name + sc[which].name));
    mix.next();
    Case c{idx, Rng(mix.next()), sc[which].name};
    rd_state = mix.next();
    if (g.status_fd >= 0)
    {
      std::string st = fmt("%llu %s\n", (unsigned long long)idx, sc[which].name.c_str());
      st.resize(200, ' ');
      if (pwrite(g.status_fd, st.data(), st.size(), 0) < 0) {}
    }
    ++g.cases; g.sig = 0;
    g.counters["cases:" + sc[which].name]++;
    if (sc[which].fresh_thread) { std::thread t([&] { sc[which].fn(c); }); t.join(); }
    else sc[which].fn(c);
    if (g.sig) g.case_sigs.insert(g.sig);
  }

  inline int run(int argc, char** argv, const char* name, std::vector<Scenario> sc)
  {
    uint64_t cases = 200, only = ~0ull, shard = 0, shards = 1;
    g.name = name;
    std::string filter;
    for (int i = 1; i < argc; ++i)
    {
      std::string a = argv[i];
      auto val = [&] { return i + 1 < argc ? strtoull(argv[++i], nullptr, 10) : 0ull; };
      if (a == "--seed") g.seed = val();
      else if (a == "--cases") cases = val();
      else if (a == "--only") only = val();
      else if (a == "--shard") shard = val();
      else if (a == "--shards") shards = val();
      else if (a == "--verbose") g.verbose = true;
      else if (a == "--status") g.status_fd = open(argv[++i], O_CREAT | O_RDWR | O_TRUNC, 0644);
    }
    if (only != ~0ull) run_case(only, sc);
    else for (uint64_t i = shard; i < cases; i += shards) run_case(i, sc);

    std::string o = "{\"harness\":\"" + esc(name) + "\",\"cases\":" + fmt("%llu", (unsigned long long)g.cases)
      + ",\"evaluations\":" + fmt("%llu", (unsigned long long)g.evals) + ",\"counters\":{";
    bool f = true;
    for (auto& p : g.counters) { o += (f ? "" : ",") + fmt("\"%s\":%ld", esc(p.first).c_str(), p.second); f = false; }
    o += "},\"distinct\":["; f = true;
    size_t nd = 0;
    for (auto h : g.distinct) { if (++nd > 20000) break; o += (f ? "" : ",") + fmt("\"%llx\"", (unsigned long long)h); f = false; }
    o += "],\"case_sigs\":["; f = true; nd = 0;
    for (auto h : g.case_sigs) { if (++nd > 50000) break; o += (f ? "" : ",") + fmt("\"%llx\"", (unsigned long long)h); f = false; }
    o += "],\"samples\":["; f = true;
    for (auto& s : g.samples) { o += (f ? "\"" : ",\"") + esc(s) + "\""; f = false; }
    o += "],\"violations\":["; f = true;
    for (auto& v : g.violations)
    {
      o += (f ? "" : ",") + std::string("{\"key\":\"") + esc(v.key) + "\",\"scenario\":\"" + esc(v.scenario)
        + "\",\"case\":" + fmt("%llu", (unsigned long long)v.idx) + ",\"msg\":\"" + esc(v.msg) + "\"}";
      f = false;
    }
    o += "]}";
    fflush(stderr);
    printf("\nRESULT %s\n", o.c_str());
    fflush(stdout);
    _exit(0); // skip destructors of leaked simulation objects
  }
}
#endif
