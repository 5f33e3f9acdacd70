// common part of the contract-execution harnesses
#ifndef VH_H
#define VH_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <unordered_set>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" void __sanitizer_set_report_fd(void *);
static std::string CASE_;            // the case being executed, printed when it fails
static long EV_ = 0;
static std::unordered_set<size_t> SEEN_;
static bool OK_ = false, DEAD_ = false;
static unsigned long long RS_ = 88172645463325252ULL;
static double TEND_ = 0;
static int PART_ = 0, NPART_ = 1;
static inline unsigned rnd_() { RS_ ^= RS_ << 13; RS_ ^= RS_ >> 7; RS_ ^= RS_ << 17; return (unsigned)(RS_ >> 11); }
static inline int rnd(int n) { return n <= 1 ? 0 : (int)(rnd_() % (unsigned)n); }
static inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static inline bool timeleft() { return now() < TEND_; }
static void dump_(const char *why) { if (DEAD_) return; DEAD_ = true; printf("\nFAIL %s\nCASE %s\n", why, CASE_.c_str()); fflush(stdout); }
static void death_() { dump_("sanitizer report"); }
static void atexit_() { if (!OK_) { dump_("the code under test ended the execution"); _exit(98); } }
static void sig_(int s) { dump_(s == SIGALRM ? "does not terminate" : s == SIGFPE ? "SIGFPE" : "signal"); _exit(97); }
static inline void op(const char *f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); if (!CASE_.empty()) CASE_ += "; "; CASE_ += b; }
// the code under test may print messages; sanitizer reports stay visible
static inline void quiet() { int d = dup(2); __sanitizer_set_report_fd((void *)(long)d); if (!freopen("/dev/null", "w", stderr)) {} }
static inline void newcase() { CASE_.clear(); alarm(30); }
static inline void endcase() { EV_++; if (SEEN_.size() < 4000000) SEEN_.insert(std::hash<std::string>()(CASE_)); if (EV_ <= 2 || EV_ % 200003 == 7) printf("SAMPLE %.300s\n", CASE_.c_str()); }
static inline void fail(const char *f, ...) { char b[900]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); dump_(b); OK_ = true; _exit(3); }
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
void run();
int main(int argc, char **argv) {
  unsigned long seed = argc > 1 ? strtoul(argv[1], 0, 10) : 1; double sec = argc > 2 ? atof(argv[2]) : 5;
  PART_ = argc > 3 ? atoi(argv[3]) : 0; NPART_ = argc > 4 ? atoi(argv[4]) : 1;
  RS_ ^= seed * 0x9E3779B97F4A7C15ULL; if (!RS_) RS_ = 1; for (int i = 0; i < 20; i++) rnd_();
  TEND_ = now() + sec;
  setvbuf(stdout, 0, _IOLBF, 0);
  if (!freopen("/dev/null", "r", stdin)) {}
  __sanitizer_set_death_callback(death_); atexit(atexit_);
  signal(SIGALRM, sig_);
  run();
  alarm(0); OK_ = true;
  printf("EVALS %ld %zu\n", EV_, SEEN_.size()); fflush(stdout);
  _exit(0);
}
#endif
