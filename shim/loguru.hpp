// Stand-in for emilk/loguru 2.2.0 (the submodule is not available offline).
// Implements exactly the surface PicoPIC uses, with loguru's semantics:
//  * LOG_S(level) evaluates its operands only if the level is enabled
//  * LOG_S(FATAL) prints the message and abort()s -- or, inside an
//    in-process harness that set vshim::throw_on_fatal, throws
//    vshim::FatalError so that the monitor can observe the rejection.
#ifndef VSHIM_LOGURU_HPP
#define VSHIM_LOGURU_HPP
// (real loguru pulls in these as well)
#include <stddef.h>
#include <string.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <algorithm>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <sstream>
#include <string>
#include <stdexcept>
#include <vector>
#include <mutex>

// optional hook of the whole-program runs (harness/prog_hooks.cpp): called at every observable point
extern "C" void vshim_point (const char* kind, const char* text) __attribute__((weak));

namespace vshim
{
  struct FatalError : public std::runtime_error
  { explicit FatalError(const std::string& s) : std::runtime_error(s) {} };
  inline bool throw_on_fatal = false;
  inline std::recursive_mutex& log_mutex() { static auto* m = new std::recursive_mutex; return *m; }
  inline unsigned long n_error = 0;
  inline unsigned long n_warning = 0;
  inline unsigned long n_fatal = 0;
  inline std::vector<std::string>* capture = nullptr;
}

namespace loguru
{
  typedef int Verbosity;
  enum NamedVerbosity : Verbosity
  {
    Verbosity_INVALID = -10, Verbosity_OFF = -9, Verbosity_FATAL = -3,
    Verbosity_ERROR = -2, Verbosity_WARNING = -1, Verbosity_INFO = 0,
    Verbosity_0 = 0, Verbosity_1 = 1, Verbosity_9 = 9, Verbosity_MAX = 9
  };
  enum FileMode { Truncate, Append };

  struct SignalOptions
  {
    bool unsafe_signal_handler = true;
    bool sigabrt = true, sigbus = true, sigfpe = true, sigill = true,
      sigint = true, sigsegv = true, sigterm = true;
    static SignalOptions none()
    {
      SignalOptions o;
      o.unsafe_signal_handler = o.sigabrt = o.sigbus = o.sigfpe = o.sigill
        = o.sigint = o.sigsegv = o.sigterm = false;
      return o;
    }
  };
  struct Options
  {
    const char* verbosity_flag = "-v";
    const char* main_thread_name = "main thread";
    SignalOptions signals;
  };

  inline Verbosity g_stderr_verbosity = Verbosity_WARNING;
  inline Verbosity g_file_verbosity = Verbosity_OFF;
  inline bool g_preamble = true;
  inline bool g_preamble_header = true;
  inline bool g_preamble_date = true;
  inline bool g_preamble_time = true;
  inline bool g_preamble_uptime = true;
  inline bool g_preamble_thread = true;
  inline bool g_preamble_file = true;
  inline bool g_preamble_verbose = true;
  inline std::vector<std::pair<std::string, Verbosity>> g_files;

  inline void init (int&, char**, const Options& = {}) {}
  inline bool add_file (const char* path, FileMode mode, Verbosity v)
  {
    FILE* f = fopen(path, mode == Truncate ? "w" : "a");
    if (f) fclose(f);
    g_files.push_back({std::string(path), v});
    if (v > g_file_verbosity) g_file_verbosity = v;
    return f != nullptr;
  }
  inline Verbosity current_verbosity_cutoff ()
  { return std::max(g_stderr_verbosity, g_file_verbosity); }

  class StreamLogger
  {
  public:
    StreamLogger (Verbosity v, const char* f, unsigned l) : v_(v), file_(f), line_(l) {}
    ~StreamLogger () noexcept(false)
    {
      const char* names[] = {"FATL", "ERR", "WARN", "INFO"};
      std::string tag = (v_ >= -3 && v_ <= 0) ? names[v_ + 3] : std::to_string(v_);
      std::string line = "[" + tag + "] " + ss_.str();
      {
        std::lock_guard<std::recursive_mutex> g(vshim::log_mutex());
        if (v_ == Verbosity_ERROR) ++vshim::n_error;
        if (v_ == Verbosity_WARNING) ++vshim::n_warning;
        if (v_ == Verbosity_FATAL) ++vshim::n_fatal;
        if (vshim::capture) vshim::capture->push_back(line);
        if (v_ <= g_stderr_verbosity) fprintf(stderr, "%s\n", line.c_str());
        for (auto& p : g_files)
          if (v_ <= p.second)
            if (FILE* f = fopen(p.first.c_str(), "a")) { fprintf(f, "%s\n", line.c_str()); fclose(f); }
      }
      if (vshim_point && v_ != Verbosity_FATAL) vshim_point("log", line.c_str());
      if (v_ == Verbosity_FATAL)
      {
        if (vshim::throw_on_fatal) throw vshim::FatalError(ss_.str());
        fflush(nullptr);
        abort();
      }
    }
    template<typename T> StreamLogger& operator<< (const T& t) { ss_ << t; return *this; }
    StreamLogger& operator<< (std::ostream& (*f)(std::ostream&)) { f(ss_); return *this; }
  private:
    Verbosity v_; const char* file_; unsigned line_;
    std::ostringstream ss_;
  };
  class Voidify
  {
  public:
    Voidify () {}
    void operator& (const StreamLogger&) {}
  };
}

#define VLOG_IF_S(verbosity, cond)                                      \
  ((verbosity) > loguru::current_verbosity_cutoff() || (cond) == false) \
    ? (void)0                                                           \
    : loguru::Voidify() & loguru::StreamLogger(verbosity, __FILE__, __LINE__)
#define VLOG_S(verbosity) VLOG_IF_S(verbosity, true)
#define LOG_S(verbosity_name) VLOG_S(loguru::Verbosity_ ## verbosity_name)
#define LOG_IF_S(verbosity_name, cond) VLOG_IF_S(loguru::Verbosity_ ## verbosity_name, cond)
#endif
