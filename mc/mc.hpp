// Bounded exhaustive exploration engine (stateless model checking by choice enumeration).
//
// A scenario body is an ordinary function that drives the real code and asks the engine for every
// decision (operation, argument, environment answer, scheduling decision).  The engine executes the
// body once per choice sequence and enumerates ALL choice sequences; nothing is sampled.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

struct Violation {
  std::string sig;
  std::string msg;
};

bool thorough();                 // VERIF_TIER=thorough
inline int tier(int q, int t) { return thorough() ? t : q; }

class Run {
 public:
  // Enumerated nondeterminism. 0 is explored first.
  int choose(int n, const char* label);
  // As choose, but any answer other than 0 costs one unit of the deviation budget.
  int deviate(int n, const char* label);
  void set_budget(int b) { budget_ = b; }
  int budget() const { return budget_; }
  template <class T>
  T pick(std::initializer_list<T> v, const char* label) {
    return *(v.begin() + choose(static_cast<int>(v.size()), label));
  }
  template <class T>
  T pickv(const std::vector<T>& v, const char* label) {
    return v[choose(static_cast<int>(v.size()), label)];
  }
  bool flag(const char* label) { return choose(2, label) != 0; }

  void transition(long n = 1);        // an operation of the system was executed
  void state(uint64_t h);             // a canonical state hash was reached
  void outcome(uint64_t h);           // distinct observable outcome (vacuity guard)
  void cover(const char* label);      // named coverage counter
  bool recording() const { return recording_; }
  void note(const std::string& s);    // human readable trace (kept only when recording)
  [[noreturn]] void fail(const std::string& sig, const std::string& msg);
  void check(bool ok, const char* sig, const std::string& msg) {
    if (!ok) fail(sig, msg);
  }
  template <class F>
  void checkf(bool ok, const char* sig, F msg) {
    if (!ok) fail(sig, msg());
  }
  // Like fail but without throwing (used where unwinding is impossible).
  void fail_deferred(const std::string& sig, const std::string& msg);
  bool failed() const { return has_violation_; }

  // engine internals
  std::vector<uint8_t> prefix_;
  uint64_t prefix_hash_ = 0;
  struct Pt { uint8_t n, c; };
  std::vector<Pt> tape_;
  uint64_t hash_ = 1469598103934665603ull;
  int budget_ = 0;
  bool recording_ = false;
  bool has_violation_ = false;
  bool warmup_ = false;
  bool frozen_ = false;               // stop branching: this state was already explored
  bool visit(uint64_t h);             // true when h is new (or the table is full)
  Violation violation_;
  std::vector<std::string> trace_;
};

struct Scenario {
  std::string name;
  std::string bound;                 // human readable statement of the bound
  std::function<void(Run&)> body;
  double exec_limit_s = 20;          // one execution longer than this is a hang (re-run alone first)
  double time_cap_s = 0;             // 0: no cap (must be exhaustive)
  bool warmup = false;               // run once unexplored first (initialises function-local statics)
};

// state hashing helpers
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
inline uint64_t hashd(uint64_t h, double d) {
  if (d == 0) d = 0;
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return mix(h, u);
}
inline uint64_t hashs(uint64_t h, const std::string& s) {
  for (char c : s) h = mix(h, static_cast<unsigned char>(c));
  return mix(h, s.size());
}
template <class M>
uint64_t hashm(uint64_t h, const M& m) {
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) h = hashd(h, m(i, j));
  return h;
}
template <class... A>
std::string str(const A&... a) {
  std::ostringstream o;
  o.precision(17);
  int unused[] = {0, ((o << a), 0)...};
  (void)unused;
  return o.str();
}

// Runs fn in a forked child with stderr captured.
struct ChildResult {
  bool exited = false;     // normal exit
  int code = 0;            // exit code or signal
  bool timeout = false;
  std::string err;
};
ChildResult in_child(const std::function<void()>& fn, double limit_s = 20);

// Captures everything written to file descriptor 1 (stdio and iostream) while alive.
class CaptureStdout {
 public:
  CaptureStdout();
  ~CaptureStdout();
  std::string get();       // flush and return the text so far (keeps capturing)
 private:
  int saved_, fd_;
};

struct Spec {
  std::string property;
  std::string unit;                       // what a state / transition / trace is here
  std::vector<std::string> assumptions;
  std::vector<Scenario> scenarios;
};
int main_driver(int argc, char** argv, const Spec& spec);

}  // namespace mc
