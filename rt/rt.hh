// Runtime contract checking against the real code: case generation, failure reporting.
#ifndef VERIF_RT_HH
#define VERIF_RT_HH
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <list>
#include <map>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <boost/log/core.hpp>
namespace rt {
inline std::mt19937_64 rng(1);
inline double budget = 5; inline int curfd = -1; inline std::string cur; inline long evals = 0; inline std::unordered_set<size_t> seen; inline std::vector<std::string> samples;
inline auto t0 = std::chrono::steady_clock::now();
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool more() { return elapsed() < budget; }
inline bool more(double frac) { return elapsed() < budget * frac; }
inline int rnd(int a, int b) { return a + (int)(rng() % (unsigned long)(b - a + 1)); }
inline bool coin(int k = 2) { return rng() % k == 0; }
inline void arm(int s = 20) { struct itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = s; setitimer(ITIMER_PROF, &v, nullptr); }
// announce the input of the next call(s); it is on disk before the call runs
inline void input(const std::string& s, bool nontrivial = true) {
  cur = s; evals++;
  if (curfd >= 0) { if (ftruncate(curfd, 0)) {} if (pwrite(curfd, s.data(), s.size(), 0)) {} }
  if (nontrivial) { if (seen.insert(std::hash<std::string>()(s)).second && (samples.size() < 3)) samples.push_back(s); }
  if ((evals & 15) == 1) arm();
}
[[noreturn]] inline void fail(const std::string& what) {
  std::string w = what; for (auto& ch : w) if (ch == '\n' || ch == '\t') ch = ' ';
  printf("FAIL\t%s\t%s\n", w.c_str(), cur.c_str()); fflush(stdout); _exit(3); }
inline void check(bool c, const std::string& what) { if (!c) fail(what); }
template <class It> std::string seq(It a, It b) { std::ostringstream o; o << "["; bool f = true; for (; a != b; ++a) { if (!f) o << ","; f = false; o << *a; } o << "]"; return o.str(); }
template <class C> std::string seq(const C& c) { return seq(c.begin(), c.end()); }
}
void rt_run();
#ifndef RT_NO_MAIN
int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i];
    if (k == "--seed") rt::rng.seed(atoll(argv[i + 1]));
    if (k == "--budget") rt::budget = atof(argv[i + 1]);
    if (k == "--cur") rt::curfd = open(argv[i + 1], O_RDWR | O_CREAT | O_TRUNC, 0644);
  }
  boost::log::core::get()->set_logging_enabled(false);
  rt::t0 = std::chrono::steady_clock::now();
  try { rt_run(); } catch (const std::exception& e) { rt::fail(std::string("unexpected exception: ") + e.what()); } catch (...) { rt::fail("unexpected exception"); }
  printf("OK\t%ld\t%zu\n", rt::evals, rt::seen.size());
  for (auto& s : rt::samples) printf("SAMPLE\t%s\n", s.substr(0, 600).c_str());
  fflush(stdout); _exit(0);
}
#endif
#endif
