// linked with the real program (not with a harness): reproducible random numbers, quick sleeps,
// signals delivered at chosen observable points, snapshots of the data file when it is closed
//  VSHIM_SIGNALS="kind:n:signum;..."  in order: an entry is armed when the previous one has been delivered
//  VSHIM_TRACE=file                   every point, one per line
//  VSHIM_SNAP=prefix                  copy of the data file at every close
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/syscall.h>
static void nap() { struct timespec t = {0, 2000000}; syscall(SYS_nanosleep, &t, nullptr); }
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void*) { static unsigned n = 0; const char* e = getenv("VSHIM_SEED"); return (e ? atoi(e) : 1) * 7919u + n++; }
extern "C" void vshim_point(const char* kind, const char* text)
{
  struct Sig { std::string kind; long n; int sig; };
  static std::vector<Sig>* sigs = nullptr; static int trace = -1; static size_t at = 0; static long count = 0; static int snaps = 0;
  if (!sigs)
  {
    sigs = new std::vector<Sig>;
    if (const char* t = getenv("VSHIM_TRACE")) trace = open(t, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (const char* s = getenv("VSHIM_SIGNALS"))
      while (*s)
      {
        const char *a = strchr(s, ':'), *b = strchr(a + 1, ':'); sigs->push_back({std::string(s, a - s), atol(a + 1), atoi(b + 1)});
        s = strchr(b, ';'); if (!s) break; ++s;
      }
  }
  if (trace >= 0) { std::string l = std::string(kind) + " " + text; for (char& c : l) if (c == '\n') c = ' '; l += '\n'; if (write(trace, l.data(), l.size()) < 0) {} }
  if (!strcmp(kind, "close")) if (const char* s = getenv("VSHIM_SNAP"))
  {
    std::string to = std::string(s) + std::to_string(snaps++); FILE* i = fopen(text, "r"); FILE* o = fopen(to.c_str(), "w"); char buf[65536]; size_t n;
    if (i && o) while ((n = fread(buf, 1, sizeof buf, i)) > 0) fwrite(buf, 1, n, o);
    if (i) fclose(i); if (o) fclose(o);
  }
  static int naps = 0; // nothing else will ever end this pause
  if (strcmp(kind, "sleep")) naps = 0; else if (++naps == 40 && getenv("VSHIM_SIGNALS")) { if (trace >= 0 && write(trace, "SIGNAL 12 kick\n", 15) < 0) {} naps = 0; raise(SIGUSR2); return; }
  if (at < sigs->size() && (*sigs)[at].kind == kind && ++count == (*sigs)[at].n)
  {
    int g = (*sigs)[at].sig; ++at; count = 0;
    if (trace >= 0) { char b[32]; int n = snprintf(b, sizeof b, "SIGNAL %d\n", g); if (write(trace, b, n) < 0) {} }
    raise(g);
  }
}
extern "C" unsigned sleep(unsigned) { vshim_point("sleep", ""); nap(); return 0; }
extern "C" int usleep(useconds_t) { vshim_point("sleep", ""); nap(); return 0; }
extern "C" int nanosleep(const struct timespec*, struct timespec*) { vshim_point("sleep", ""); nap(); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { vshim_point("sleep", ""); nap(); return 0; }
extern "C" void srand(unsigned s) { const char* e = getenv("VSHIM_SEED"); srandom(e ? atoi(e) : s); } // the code seeds it with the wall clock
