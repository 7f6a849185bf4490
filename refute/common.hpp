// Search for a failing input on the real code: cases are numbered, and case n of seed s is always the same.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed, uint64_t idx) : s(seed * 0x9E3779B97F4A7C15ull ^ (idx + 1) * 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int in(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }
  bool p(int k, int n) { return int(next() % uint64_t(n)) < k; }
  double real() { return double(next() >> 11) / 9007199254740992.0; }
};
struct Bad { std::string what; };
// the input of the case, filled in as it is made
inline std::ostringstream* LOG;
inline std::ostringstream& log_() { return *LOG; }
#define CHECK(c, m) do { if (!(c)) { std::ostringstream o_; o_ << m; throw Bad{o_.str()}; } } while (0)
using Case = void (*)(Rng&);

// runs one case; "" or what is wrong
inline std::string run_case(Case f, uint64_t seed, uint64_t idx, std::string& input) {
  std::ostringstream o; o.precision(17); LOG = &o;
  Rng r(seed, idx);
  std::string e;
  try { f(r); }
  catch (const Bad& b) { e = b.what; }
  catch (const std::exception& x) { e = std::string("exception: ") + x.what(); }
  catch (...) { e = "unknown exception"; }
  input = o.str();
  return e;
}
struct Shared { volatile uint64_t idx[64]; volatile int found; char text[64][6000]; };
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline int search(Case f, uint64_t seed, double secs, int jobs, uint64_t maxcases) {
  auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> pid(jobs);
  double t0 = now();
  for (int w = 0; w < jobs; w++) {
    pid[w] = fork();
    if (pid[w] == 0) {
      for (uint64_t k = w; k < maxcases && !sh->found && now() - t0 < secs; k += jobs) {
        sh->idx[w] = k;
        alarm(20);
        std::string in, e = run_case(f, seed, k, in);
        alarm(0);
        if (!e.empty()) {
          snprintf(sh->text[w], sizeof sh->text[w], "%.2000s\n%.3500s", e.c_str(), in.c_str());
          sh->found = 1;
          _exit(3);
        }
      }
      _exit(0);
    }
  }
  int rc = 0; uint64_t n = 0;
  for (int w = 0; w < jobs; w++) {
    int st = 0;
    waitpid(pid[w], &st, 0);
    n += sh->idx[w] / jobs + 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    if (rc) continue;
    rc = 1;
    printf("FOUND seed=%llu case=%llu\n", (unsigned long long)seed, (unsigned long long)sh->idx[w]);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) printf("%s\n", sh->text[w]);
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) printf("does not end\n");
    else if (WIFSIGNALED(st)) printf("killed by signal %d\n", WTERMSIG(st));
    else printf("ended with status %d (sanitizer or assertion)\n", WEXITSTATUS(st));
    sh->found = 1;
  }
  if (!rc) printf("NOT FOUND in %llu cases\n", (unsigned long long)n);
  return rc;
}
inline int harness(const std::map<std::string, Case>& cases, int argc, char** argv) {
  // prop seed seconds jobs | prop seed --case k
  auto it = cases.find(argc > 1 ? argv[1] : "");
  if (it == cases.end()) { printf("no such property\n"); return 2; }
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  if (argc > 4 && !strcmp(argv[3], "--case")) {
    std::ostringstream dummy;
    alarm(30);
    setvbuf(stdout, nullptr, _IONBF, 0);
    std::string in, e = run_case(it->second, seed, strtoull(argv[4], nullptr, 10), in);
    printf("%s\n%s\n", e.empty() ? "HOLDS" : ("FAILS: " + e).c_str(), in.c_str());
    return e.empty() ? 0 : 1;
  }
  return search(it->second, seed, atof(argv[3]), argc > 4 ? atoi(argv[4]) : 8, argc > 5 ? strtoull(argv[5], nullptr, 10) : ~0ull >> 8);
}
