// P24: the statistics of a benchmark run are those of exactly the measured runs.
// check: P24 variant=asan sources=assert.cpp
// Every list of samples over a grid, and every run of a benchmark under a clock the check advances.
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <sstream>
#include <vector>
#include "altro/utils/benchmarking.hpp"
#include "mc.hpp"

static bool g_fake = false;
static long g_mono = 0, g_wall = 0;   // nanoseconds
extern "C" int clock_gettime(clockid_t id, struct timespec* t) {
  if (!g_fake) return static_cast<int>(syscall(SYS_clock_gettime, id, t));
  long ns = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? g_wall : g_mono;
  t->tv_sec = ns / 1000000000; t->tv_nsec = ns % 1000000000;
  return 0;
}
extern "C" int gettimeofday(struct timeval* t, void*) noexcept {
  struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}

namespace {
namespace utils = altro::utils;
bool near(double a, double b, double rel = 1e-9) { return std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)) + 1e-12; }

// the definitions, without sorting the whole list or relying on the order
struct Want { double mean, median, std, max, min; };
Want statistics(const std::vector<double>& v) {
  const int n = v.size();
  Want w{0, 0, 0, v[0], v[0]};
  for (double x : v) { w.mean += x / n; w.max = std::max(w.max, x); w.min = std::min(w.min, x); }
  for (double x : v) w.std += (x - w.mean) * (x - w.mean) / n;
  w.std = std::sqrt(w.std);
  auto rank = [&](int k) {   // k-th smallest
    for (double x : v) { int less = 0, eq = 0; for (double y : v) { less += y < x; eq += y == x; } if (less <= k && k < less + eq) return x; }
    return 0.0;
  };
  w.median = (rank((n - 1) / 2) + rank(n / 2)) / 2;
  return w;
}
std::string show(const std::vector<double>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += mc::str(i ? ", " : "", v[i]); return s + "]"; }

template <class D>
void compare(mc::Run& r, const utils::BenchmarkResults<D>& b, const std::vector<double>& v) {
  const Want w = statistics(v);
  struct { const char* name; double got, want; } f[] = {{"mean", b.mean.count(), w.mean}, {"median", b.median.count(), w.median}, {"std", b.std.count(), w.std}, {"max", b.max.count(), w.max}, {"min", b.min.count(), w.min}};
  for (auto& e : f) {
    // the deviation is a difference of nearly equal numbers when the samples are nearly equal
    bool ok = near(e.got, e.want) || (e.name == std::string("std") && std::abs(e.got - e.want) <= 1e-7 * std::max(1.0, w.max));
    r.checkf(ok, e.name, [&] { return mc::str("the ", e.name, " of ", show(v), " is reported as ", e.got, ", it is ", e.want); });
  }
  r.checkf(b.samples == static_cast<int>(v.size()), "samples", [&] { return mc::str(v.size(), " samples are reported as ", b.samples); });
}

template <class D>
void lists(mc::Run& r, int nmax) {
  using B = utils::BenchmarkResults<D>;
  const int n = 1 + r.choose(nmax, "number of samples");
  std::vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(r.pick({0.0, 1.0, 2.5, 7.0, 1e6}, "sample"));
  std::vector<typename B::time_t> t;
  for (double x : v) t.emplace_back(x);
  B b = B::Calculate(t);
  r.transition();
  compare(r, b, v);
  uint64_t h = n;
  for (double x : v) h = mc::hashd(h, x);
  r.state(h);
  r.outcome(mc::hashd(mc::hashd(h, b.mean.count()), b.median.count()));
}

const long kDur[] = {0, 700, 1000, 12345678};   // nanoseconds a run takes
template <class D>
void runs(mc::Run& r, int nmax) {
  const double unit = std::ratio_divide<typename D::period, std::nano>::num;
  const int n = 1 + r.choose(nmax, "runs");
  std::vector<long> dur; std::vector<int> jump;
  for (int i = 0; i < n; ++i) dur.push_back(kDur[r.choose(4, "duration")]);
  const int at = r.choose(n + 1, "run in which the wall clock is set"), by = at ? r.choose(2, "forward or back") : 0;
  int calls = 0;
  g_mono = 5000000000; g_wall = 1700000000000000000;
  g_fake = true;
  auto b = utils::Benchmark<D>([&] {
    const long d = calls < n ? dur[calls] : 0;
    g_mono += d; g_wall += d;
    if (calls + 1 == at) g_wall += by ? -3000000 : 5000000;
    ++calls;
  }, n);
  g_fake = false;
  r.transition(n);
  r.checkf(calls == n, "calls", [&] { return mc::str("the function was run ", calls, " times, requested were ", n); });
  std::vector<double> v;
  for (long d : dur) v.push_back(d / unit);
  compare(r, b, v);
  uint64_t h = mc::mix(n, at * 2 + by);
  for (long d : dur) h = mc::mix(h, d);
  r.state(h);
  r.outcome(mc::hashd(h, b.mean.count()));
}

// The printed summary: one line for each statistic with its value
void printed(mc::Run& r) {
  const int n = 1 + r.choose(3, "number of samples");
  std::vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(r.pick({0.0, 1.0, 2.5, 700.0}, "sample"));
  using B = utils::BenchmarkResults<std::chrono::microseconds>;
  std::vector<B::time_t> t;
  for (double x : v) t.emplace_back(x);
  B b = B::Calculate(t);
  std::string text;
  { mc::CaptureStdout cap; b.Print(); text = cap.get(); }
  r.transition();
  const Want w = statistics(v);
  struct { const char* key; double want; } f[] = {{"Mean", w.mean}, {"Median", w.median}, {"Std", w.std}, {"Max", w.max}, {"Min", w.min}, {"Samples", double(n)}};
  std::istringstream in(text); std::string l;
  int lines = 0;
  std::vector<int> seen(6, 0);
  while (std::getline(in, l)) {
    ++lines;
    for (int i = 0; i < 6; ++i) {
      std::string k = std::string(f[i].key) + ":";
      if (l.compare(0, k.size(), k)) continue;
      ++seen[i];
      double x = strtod(l.c_str() + k.size(), nullptr);
      r.checkf(std::abs(x - f[i].want) <= 1e-3 * std::max(1.0, std::abs(f[i].want)), "printed", [&] { return mc::str("'", l, "' is printed, the ", f[i].key, " is ", f[i].want); });
    }
  }
  for (int i = 0; i < 6; ++i) r.checkf(seen[i] == 1, "printed-lines", [&] { return mc::str(f[i].key, " is printed ", seen[i], " times"); });
  uint64_t h = n;
  for (double x : v) h = mc::hashd(h, x);
  r.state(h);
  r.outcome(mc::hashs(h, text));
}

// Without samples there are no statistics: this must be refused, not computed from whatever memory holds
void nothing(mc::Run& r) {
  const int how = r.choose(4, "call");
  fflush(stdout); fflush(stderr);
  int fd[2];
  if (pipe(fd)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    dup2(fd[1], 1); dup2(fd[1], 2); close(fd[0]);
    try {
      using B = utils::BenchmarkResults<std::chrono::microseconds>;
      std::vector<B::time_t> t;
      if (how == 0) B::Calculate(t);
      if (how == 1) utils::Benchmark<std::chrono::microseconds>([] {}, 0);
      if (how == 2) { t.reserve(4); B::Calculate(t); }
      if (how == 3) utils::Benchmark<std::chrono::microseconds>([] {}, -1);
    } catch (const std::exception& e) { (void)!write(2, "exception", 9); _exit(3); }
    _exit(0);
  }
  close(fd[1]);
  std::string out; char buf[512]; ssize_t k;
  while ((k = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, k);
  close(fd[0]);
  int st = 0; waitpid(pid, &st, 0);
  r.transition();
  bool refused = (WIFEXITED(st) && WEXITSTATUS(st) == 3) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && out.find("ssert") != std::string::npos && out.find("AddressSanitizer") == std::string::npos);
  r.checkf(refused, "no-samples", [&] { return mc::str("statistics of no samples: ", WIFEXITED(st) ? "exit " : "signal ", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st), " ", out.substr(0, 200)); });
  r.state(how + 1); r.outcome(how);
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P24";
  s.unit = "state: one list of samples or one sequence of run durations; transition: one evaluation of the statistics or one timed run";
  s.assumptions = {"the deviation is the population's (divided by the number of samples)", "the clock is replaced by one the check advances"};
  const int n = mc::tier(5, 7), m = mc::tier(4, 6);
  s.scenarios.push_back({"lists", mc::str("all lists of 1..", n, " samples over 5 values, in microseconds"), [n](mc::Run& r) { lists<std::chrono::microseconds>(r, n); }});
  s.scenarios.push_back({"lists-milliseconds", mc::str("all lists of 1..", n - 1, " samples over 5 values, in milliseconds"), [n](mc::Run& r) { lists<std::chrono::milliseconds>(r, n - 1); }});
  s.scenarios.push_back({"runs", mc::str("benchmarks of 1..", m, " runs over 4 durations, the wall clock set forward or back in any one run"), [m](mc::Run& r) { runs<std::chrono::microseconds>(r, m); }});
  s.scenarios.push_back({"runs-milliseconds", mc::str("benchmarks of 1..", m - 1, " runs, in milliseconds"), [m](mc::Run& r) { runs<std::chrono::milliseconds>(r, m - 1); }});
  s.scenarios.push_back({"printed", "the printed summary of all lists of 1..3 samples over 4 values", printed});
  s.scenarios.push_back({"no-samples", "statistics of no samples are refused", nothing});
  return mc::main_driver(argc, argv, s);
}
