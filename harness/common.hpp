// Shared machinery of every harness: case enumeration, failure recording, result files.
// A harness enumerates a finite space of cases in a fixed order.  Every case has a key (a
// string that identifies it), and can be replayed alone with  -vp_case KEY .
#pragma once
#include <petsc.h>
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <array>
#include <algorithm>
#include <functional>
#include <iostream>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include <new>
// memory that nobody wrote does not look like zeros
#if !defined(__SANITIZE_ADDRESS__)
__attribute__((noinline)) void *operator new(std::size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); std::memset(p, 0xab, n); return p; }
void *operator new[](std::size_t n) { return ::operator new(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
#endif

namespace vp
{
  struct Failure { std::string key, what; };

  struct State
  {
    std::string out, progress, only, tier = "quick";
    bool have_only = false;
    bool memory = false;    // judged by the sanitizers alone: values are somebody else's property
    int shard = 0, nshards = 1;
    long counter = 0;       // cases seen (before sharding)
    long states = 0;        // cases explored
    long transitions = 0;   // operations of the implementation executed and judged
    long comparisons = 0;   // values compared with the reference model
    long traces = 0;        // executions compared with the model from start to end
    std::set<std::string> outcomes; // distinct observed outcomes (vacuity counter)
    std::vector<std::string> samples;
    std::map<std::string, long> notes;
    std::vector<Failure> failures;
    std::set<std::string> failed_keys;
    std::string cur;
    int fails_in_case = 0;
    int petsc_errors = 0;
    std::string petsc_msg;
    int fd = -1;
    int rank = 0, size = 1;
    FILE *log = nullptr;
  };
  inline State &S() { static State s; return s; }

  inline PetscErrorCode err_handler(MPI_Comm, int line, const char *fun, const char *file, PetscErrorCode n,
                                    PetscErrorType p, const char *mess, void *)
  {
    if (p == PETSC_ERROR_INITIAL)
    {
      S().petsc_errors++;
      if (S().petsc_msg.empty())
      {
        char b[600];
        std::snprintf(b, sizeof b, "PETSc error %d in %s: %s", (int)n, fun ? fun : "?", mess ? mess : "");
        S().petsc_msg = b;
      }
    }
    return n;
  }

  // stdout is taken away from the code under test (it prints a lot)
  inline void init(int *argc, char ***argv)
  {
    auto &s = S();
    std::vector<char *> rest;
    static std::vector<char *> keep;
    for (int i = 0; i < *argc; ++i)
    {
      std::string a = (*argv)[i];
      auto val = [&]() { return std::string(i + 1 < *argc ? (*argv)[++i] : ""); };
      if (a == "-vp_out") s.out = val();
      else if (a == "-vp_progress") s.progress = val();
      else if (a == "-vp_case") { s.only = val(); s.have_only = true; }
      else if (a == "-vp_tier") s.tier = val();
      else if (a == "-vp_mem") s.memory = true;
      else if (a == "-vp_shard") { auto v = val(); std::sscanf(v.c_str(), "%d/%d", &s.shard, &s.nshards); }
      else rest.push_back((*argv)[i]);
    }
    keep = rest; keep.push_back(nullptr);
    static int n; n = (int)rest.size();
    static char **av; av = keep.data();
    int saved = dup(1);
    s.log = fdopen(saved, "w");
    int devnull = open("/dev/null", O_WRONLY);
    dup2(devnull, 1); close(devnull);
    PetscInitialize(&n, &av, nullptr, nullptr);
    PetscPushErrorHandler(err_handler, nullptr);
    PetscPopSignalHandler();
    MPI_Comm_rank(PETSC_COMM_WORLD, &s.rank);
    MPI_Comm_size(PETSC_COMM_WORLD, &s.size);
    if (!s.progress.empty() && s.rank == 0)
      s.fd = open(s.progress.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
  }
  inline bool thorough() { return S().tier == "thorough"; }
  inline int np() { return S().size; }

  inline void flush();
  inline void close_case()
  {
    auto &s = S();
    if (s.cur.empty()) return;
    if (s.petsc_errors && !s.memory)
    {
      if (s.fails_in_case++ < 3) s.failures.push_back({s.cur, s.petsc_msg});
      s.failed_keys.insert(s.cur);
    }
    s.petsc_errors = 0; s.petsc_msg.clear();
    s.cur.clear();
  }
  // begin a case; false: not ours (other shard, or replaying a different one)
  inline bool begin_case(std::string const &key)
  {
    auto &s = S();
    close_case();
    long c = s.counter++;
    if (s.have_only) { if (key != s.only) return false; }
    else if (c % s.nshards != s.shard) return false;
    s.cur = key; s.fails_in_case = 0; s.petsc_errors = 0; s.petsc_msg.clear();
    s.states++;
    if (s.fd >= 0)
    {
      char b[1024]; std::memset(b, ' ', sizeof b);
      std::snprintf(b, sizeof b, "%s\n", key.c_str());
      if (pwrite(s.fd, b, sizeof b, 0) < 0) {}
    }
    return true;
  }
  inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
  inline std::string fmt(const char *f, ...)
  {
    char b[2048]; va_list ap; va_start(ap, f); std::vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
  }
  inline void fail(std::string const &what)
  {
    auto &s = S();
    if (s.memory) { s.notes["differences that are no matter of memory"]++; return; }
    if (s.fails_in_case++ < 3) s.failures.push_back({s.cur, what});
    s.failed_keys.insert(s.cur);
  }
  inline void expect(bool ok, std::string const &what) { S().comparisons++; if (!ok) fail(what); }
  // |a-b| <= tol * scale ; NaN fails
  inline bool near(double a, double b, double tol = 1e-10, double scale = 0.)
  {
    double sc = std::max({std::fabs(a), std::fabs(b), scale});
    return std::fabs(a - b) <= tol * sc || a == b;
  }
  inline void expect_near(double got, double want, double tol, double scale, const char *what)
  {
    S().comparisons++;
    if (!near(got, want, tol, scale))
      fail(fmt("%s: got %.15g, want %.15g (tolerance %.1e x %.3g)", what, got, want, tol, std::max(std::fabs(want), scale)));
  }
  inline void op(long n = 1) { S().transitions += n; }
  inline void trace() { S().traces++; }
  inline void outcome(std::string const &o) { if (S().outcomes.size() < 200000) S().outcomes.insert(o); }
  inline void sample(std::string const &o) { if (S().samples.size() < 3) S().samples.push_back(o); }
  inline void note(std::string const &k, long n = 1) { S().notes[k] += n; }

  inline std::string esc(std::string const &s)
  {
    std::string o;
    for (unsigned char c : s)
    {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
    }
    return o;
  }
  inline int finish()
  {
    auto &s = S();
    close_case();
    if (!s.out.empty())
    {
      std::string path = s.out + "." + std::to_string(s.rank);
      FILE *f = std::fopen((path + ".tmp").c_str(), "w");
      std::fprintf(f, "{\"rank\":%d,\"size\":%d,\"states\":%ld,\"transitions\":%ld,\"comparisons\":%ld,\"traces\":%ld,\"outcomes\":%zu,\"total_cases\":%ld,\"samples\":[",
                   s.rank, s.size, s.states, s.transitions, s.comparisons, s.traces, s.outcomes.size(), s.counter);
      for (std::size_t i = 0; i < s.samples.size(); ++i) std::fprintf(f, "%s\"%s\"", i ? "," : "", esc(s.samples[i]).c_str());
      std::fprintf(f, "],\"notes\":{");
      bool first = true;
      for (auto &n : s.notes) { std::fprintf(f, "%s\"%s\":%ld", first ? "" : ",", esc(n.first).c_str(), n.second); first = false; }
      std::fprintf(f, "},\"failed_cases\":%zu,\"failures\":[", s.failed_keys.size());
      for (std::size_t i = 0; i < s.failures.size(); ++i)
        std::fprintf(f, "%s{\"case\":\"%s\",\"what\":\"%s\"}", i ? "," : "", esc(s.failures[i].key).c_str(), esc(s.failures[i].what).c_str());
      std::fprintf(f, "]}\n");
      std::fclose(f);
      std::rename((path + ".tmp").c_str(), path.c_str());
    }
    if (s.size > 1) MPI_Barrier(MPI_COMM_WORLD);
    PetscPopErrorHandler();
    // No PetscFinalize: the classes under test leak objects on purpose (raw pointers),
    // and leak reports are no property here.
    MPI_Finalize();
    std::fflush(nullptr);
    _exit(0);
  }

  // temporary option settings of one case
  struct Options
  {
    std::vector<std::string> names;
    void set(std::string const &n, std::string const &v) { PetscOptionsSetValue(nullptr, n.c_str(), v.empty() ? nullptr : v.c_str()); names.push_back(n); }
    void set(std::string const &n, int v) { set(n, std::to_string(v)); }
    void set(std::string const &n, double v) { set(n, fmt("%.17g", v)); }
    ~Options() { for (auto &n : names) PetscOptionsClearValue(nullptr, n.c_str()); }
  };
}
