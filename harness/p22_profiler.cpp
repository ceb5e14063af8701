// check: P22 variant=asan sources=all
// Every sequence of timer operations under a clock the check controls, against a plain record of the sections; the
// printed summaries are read back.
#include <dirent.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <fstream>
#include <sstream>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include "al_fixture.hpp"
#include "altro/common/profile_entry.hpp"
#include "altro/common/timer.hpp"
#include "mc.hpp"
using namespace altro;

// The clocks of the process. While g_fake is set, monotonic clocks show g_mono and the wall clock g_wall.
static bool g_fake = false;
static long g_mono = 0, g_wall = 0, g_tick = 0;   // microseconds
extern "C" int clock_gettime(clockid_t id, struct timespec* t) {
  if (!g_fake) return static_cast<int>(syscall(SYS_clock_gettime, id, t));
  g_mono += g_tick; g_wall += g_tick;
  long us = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? g_wall : g_mono;
  t->tv_sec = us / 1000000; t->tv_nsec = us % 1000000 * 1000;
  return 0;
}
extern "C" int gettimeofday(struct timeval* t, void*) noexcept {
  struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}

namespace {
struct Fake {   // the clock is only replaced while the code under test runs
  explicit Fake(long tick = 0) { g_tick = tick; g_fake = true; }
  ~Fake() { g_fake = false; }
};
int open_files() {
  int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n;
}
std::string slurp(const std::string& f) { std::ifstream in(f); return {std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()}; }

struct Line { std::string name; long time; int total, parent; };
// rows of all summaries in a text: everything that ends in three integers
std::vector<std::vector<Line>> tables(const std::string& s) {
  std::vector<std::vector<Line>> out;
  std::istringstream in(s); std::string l;
  while (std::getline(in, l)) {
    if (l.find("Description") != std::string::npos) { out.emplace_back(); continue; }
    std::istringstream w(l); std::vector<std::string> c; std::string x; while (w >> x) c.push_back(x);
    if (c.size() < 4) continue;
    Line q; char* e; bool ok = true;
    q.parent = strtol(c[c.size() - 1].c_str(), &e, 10); ok = ok && !*e;
    q.total = strtol(c[c.size() - 2].c_str(), &e, 10); ok = ok && !*e;
    q.time = strtol(c[c.size() - 3].c_str(), &e, 10); ok = ok && !*e;
    if (!ok) continue;
    for (size_t i = 0; i + 3 < c.size(); ++i) q.name += (i ? " " : "") + c[i];
    if (out.empty()) out.emplace_back();
    out.back().push_back(q);
  }
  return out;
}
using Times = std::map<std::string, long>;
std::string last(const std::string& p) { size_t i = p.rfind('/'); return i == std::string::npos ? p : p.substr(i + 1); }
std::string dir(const std::string& p) { size_t i = p.rfind('/'); return i == std::string::npos ? "" : p.substr(0, i); }
std::string show(const Times& t) { std::string s; for (auto& p : t) s += mc::str(p.first, "=", p.second, " "); return s; }

// one printed table against the record; sections are told apart by their name and time
void verify(mc::Run& r, const std::vector<Line>& rows, const Times& t, const std::string& who) {
  r.checkf(rows.size() == t.size(), "rows", [&] { return mc::str(who, ": ", rows.size(), " sections printed, recorded: ", show(t)); });
  long whole = 0;
  for (auto& p : t) if (dir(p.first).empty()) whole += p.second;
  std::vector<char> used(rows.size(), 0);
  auto near = [](int a, double b) { return a == -1 ? false : std::abs(a - b) <= 1.000001; };
  for (auto& p : t) {
    bool found = false;
    std::string seen;
    for (size_t i = 0; i < rows.size() && !found; ++i) {
      if (used[i] || rows[i].name != last(p.first) || rows[i].time != p.second) continue;
      if (whole > 0 && !near(rows[i].total, 100.0 * p.second / whole)) { seen += mc::str(" share of the whole ", rows[i].total); continue; }
      std::string up = dir(p.first);
      long pt = up.empty() ? whole : t.count(up) ? t.at(up) : -1;   // the share of a section that is not recorded means nothing
      if (pt > 0 && !near(rows[i].parent, 100.0 * p.second / pt)) { seen += mc::str(" share of its parent ", rows[i].parent); continue; }
      used[i] = 1; found = true;
    }
    if (!found) for (auto& l : rows) seen += mc::str(" [", l.name, " ", l.time, " ", l.total, "% ", l.parent, "%]");
    r.checkf(found, "section", [&] { return mc::str(who, ": no right line for ", p.first, " = ", p.second, " us; printed", seen, "; recorded ", show(t)); });
  }
}

template <class S, bool M = std::is_move_constructible<S>::value> struct Mover { static std::unique_ptr<S> go(std::unique_ptr<S> s) { return std::make_unique<S>(std::move(*s)); } };
template <class S> struct Mover<S, false> { static std::unique_ptr<S> go(std::unique_ptr<S> s) { return s; } };

struct Scratch {
  std::string path;
  Scratch() { char b[] = "/dev/shm/mcprofXXXXXX"; path = mkdtemp(b); }
  ~Scratch() { for (const char* f : {"f0", "f1", "u0"}) unlink((path + "/" + f).c_str()); rmdir(path.c_str()); }
};

void ops(mc::Run& r, int depth, bool outputs) {
  mc::CaptureStdout cap;
  std::unique_ptr<Scratch> scratch(outputs ? new Scratch : nullptr);
  const std::string dirpath = outputs ? scratch->path : "";
  int fds = outputs ? open_files() : 0;
  FILE* user = outputs ? fopen((dirpath + "/u0").c_str(), "w") : nullptr;
  // channels: 0 standard output, 1 user's file, 2,3 files by name
  std::array<std::vector<Times>, 4> want;
  {
    Fake clock;
    g_mono = 1000; g_wall = 500000;
    auto timer = Timer::MakeShared();
    struct Open { std::string path; long start; bool rec; };
    std::vector<Open> open;
    std::vector<std::unique_ptr<Stopwatch>> sw;
    std::vector<std::string> stack;
    Times t;
    bool active = false, printed = false;
    int chan = 0;
    long d = 1;
    if (r.flag("active at first")) { timer->Activate(); active = true; }
    uint64_t h = active;
    auto stop = [&]() {
      Open o = open.back(); open.pop_back();
      if (o.rec) { t[o.path] += g_mono - o.start; stack.pop_back(); }
      sw.pop_back();
    };
    auto start = [&](const std::string& n) {
      sw.push_back(std::unique_ptr<Stopwatch>(new Stopwatch(timer->Start(n))));
      Open o; o.rec = active; o.start = g_mono;
      if (active) { stack.push_back(n); for (auto& s : stack) o.path += (o.path.empty() ? "" : "/") + s; }
      open.push_back(o);
    };
    for (int i = 0; i < depth; ++i) {
      g_mono += d; g_wall += d; d *= 2;   // every interval is different
      int nops = outputs ? 12 : 8;
      int op = r.choose(nops, "operation");
      h = mc::mix(h, op);
      std::string what;
      r.transition();
      switch (op) {
        case 0: case 1: case 2: if (open.size() < 4) { const char* n[] = {"a", "b", "a-b"}; start(n[op]); what = mc::str("Start(", n[op], ")"); } break;
        case 3: if (!open.empty()) { stop(); what = "stop"; } break;
        case 4: if (active) { timer->Deactivate(); active = false; what = "Deactivate()"; } else { timer->Activate(); active = true; what = "Activate()"; } break;
        case 5: timer->PrintSummary(); want[chan].push_back(t); printed = true; what = "PrintSummary()"; break;
        case 6: if (!sw.empty()) { sw.back() = Mover<Stopwatch>::go(std::move(sw.back())); what = "stopwatch moved"; } break;
        case 7: { long j = r.pick({1000003L, -400009L}, "clock step"); g_wall += j; what = mc::str("wall clock set by ", j); break; }
        case 8: timer->SetOutput(user); chan = 1; what = "SetOutput(user's file)"; break;
        case 9: { int f = r.choose(2, "file"); timer->SetOutput(dirpath + (f ? "/f1" : "/f0")); chan = 2 + f; want[chan].clear(); what = mc::str("SetOutput(file ", f, ")"); h = mc::mix(h, f); break; }
        case 10: timer->SetOutput(stdout); chan = 0; what = "SetOutput(stdout)"; break;
        case 11: { bool threw = false; try { timer->SetOutput(dirpath + "/no/such/directory"); } catch (const std::runtime_error&) { threw = true; } r.check(threw, "bad-output", "a file that cannot be opened is accepted"); what = "SetOutput(bad file)"; break; }
      }
      if (r.recording()) r.note(what);
      r.check(timer->IsActive() == active, "active", "IsActive() after " + what);
      uint64_t g = mc::mix(active, chan); for (auto& o : open) g = mc::hashs(g, o.path); for (auto& p : t) g = mc::mix(mc::hashs(g, p.first), p.second);
      r.state(g);
    }
    // the end: the timer may go first (open sections keep it alive)
    bool first = r.flag("timer released first");
    Timer* raw = timer.get();
    std::weak_ptr<Timer> weak = timer;
    if (first) timer.reset();
    while (!open.empty()) { g_mono += d; g_wall += d; d *= 2; stop(); }
    (void)raw;
    timer.reset();
    r.check(weak.expired(), "lifetime", "the timer is still alive");
    if (active && !printed) want[chan].push_back(t);
    r.outcome(mc::hashs(chan, show(t)));
  }
  if (user) {
    r.check(fputs("end\n", user) >= 0 && fflush(user) == 0, "user-output", "the user's file is not usable any more");
    fclose(user);
  }
  printf("still here\n");
  fflush(stdout);
  std::string text = cap.get();
  r.check(text.find("still here\n") != std::string::npos, "stdout", "the standard output is not usable any more");
  std::array<std::string, 4> got = {text, outputs ? slurp(dirpath + "/u0") : "", outputs ? slurp(dirpath + "/f0") : "", outputs ? slurp(dirpath + "/f1") : ""};
  for (int c = 0; c < 4; ++c) {
    auto tb = tables(got[c]);
    const char* n[] = {"standard output", "user's file", "file 0", "file 1"};
    r.checkf(tb.size() == want[c].size(), "summaries", [&] { return mc::str(n[c], ": ", tb.size(), " summaries, expected ", want[c].size(), "\n", got[c]); });
    for (size_t i = 0; i < tb.size(); ++i) verify(r, tb[i], want[c][i], mc::str(n[c], " summary ", i));
  }
  if (outputs) r.checkf(open_files() == fds, "open-files", [&] { return mc::str(open_files() - fds, " files left open"); });
}

// recorded maps given directly: all shapes of the tree of sections, long times
void shapes(mc::Run& r) {
  mc::CaptureStdout cap;
  const std::vector<std::string> paths = {"a", "a/x", "a/x/y", "a-b", "a-b/x", "b", "b/a", "a b", "a/x-y"};
  std::map<std::string, std::chrono::microseconds> m;
  Times t;
  int set = r.choose(16, "sections"); set += 16 * r.choose(16, "more sections");   // all sets of the first eight
  long unit = r.pick({1L, 30L, 9000000L, 21600000000L, 0L}, "unit of time");
  for (size_t i = 0; i + 1 < paths.size(); ++i) if (set >> i & 1) {
    int depth = static_cast<int>(std::count(paths[i].begin(), paths[i].end(), '/'));
    long v = unit * (depth == 0 ? 100 + 7 * static_cast<long>(i) : depth == 1 ? 40 + static_cast<long>(i) : 9);
    m[paths[i]] = std::chrono::microseconds(v); t[paths[i]] = v;
  }
  auto timer = Timer::MakeShared();
  timer->PrintSummary(&m);
  r.transition();
  auto tb = tables(cap.get());
  r.check(tb.size() == 1, "summaries", mc::str(tb.size(), " tables printed"));
  verify(r, tb[0], t, "given times");
  r.state(mc::mix(set, unit)); r.outcome(mc::mix(set, unit));
}

// the solvers' own sections: balanced after every solve, times nested, switched on and off between solves
void solvers(mc::Run& r) {
  mc::CaptureStdout cap;
  Scratch dirr;
  int fds = open_files();
  int lay = r.choose(alfix::kLayouts, "constraints"), set = r.choose(alfix::NSETTING, "settings");
  int solves = 1 + r.choose(3, "solves");
  std::vector<int> mode;
  for (int i = 0; i < solves; ++i) mode.push_back(r.choose(3, "profiler off, to standard output, to a file"));
  {
    alfix::Fix<2, 1> f(lay);
    auto& s = *f.s;
    alfix::settings(s.GetOptions(), set);
    Fake clock(1);
    for (int i = 0; i < solves; ++i) {
      auto& o = s.GetOptions();
      o.profiler_enable = mode[i] > 0;
      o.profiler_output_to_file = mode[i] == 2;
      o.log_directory = dirr.path; o.profile_filename = "f0";
      s.Solve();
      r.transition();
      // nothing is left open: a section started now is at the top
      if (mode[i] > 0) { Stopwatch w = s.GetStats().GetTimer()->Start("probe"); }
    }
  }
  std::string text = mode.back() == 2 ? slurp(dirr.path + "/f0") : cap.get();
  auto tb = tables(text);
  if (mode.back() == 0) { for (auto& x : tables(cap.get())) r.check(x.empty(), "inactive", "a solve with the profiler off printed a summary"); r.outcome(0); return; }
  r.checkf(tb.size() == 1, "summaries", [&] { return mc::str(tb.size(), " tables printed:\n", text); });
  long whole = 0; int tops = 0;
  for (auto& l : tb[0]) {
    if (l.name == "probe") { r.check(l.parent >= 0 && l.parent == l.total, "balance", "a section started after the solve is nested in another one:\n" + text); ++tops; }
    if (l.name == "al") { whole += l.time; }
    r.checkf(l.total >= 0 && l.total <= 100 && l.parent >= 0 && l.parent <= 100, "shares", [&] { return "shares of " + l.name + " in\n" + text; });
  }
  r.check(tops == 1 && whole > 0, "balance", "sections missing:\n" + text);
  r.check(open_files() == fds, "open-files", mc::str(open_files() - fds, " files left open"));
  r.state(mc::hashs(set, text)); r.outcome(mc::hashs(lay, text));
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P22";
  s.unit = "state: open sections, recorded times, output; transition: one operation on the timer or one solve; trace: one sequence with the summaries printed";
  s.assumptions = {"sections end in the reverse order of their start", "names of sections contain no slash", "shares are compared to within one percent point (rounding is not specified)", "the clock is replaced by one the check advances"};
  auto add = [&](const std::string& name, const std::string& bound, std::function<void(mc::Run&)> f) {
    mc::Scenario c; c.name = name; c.bound = bound; c.body = f; s.scenarios.push_back(c);
  };
  int d = mc::tier(6, 7), e = mc::tier(4, 5);
  add("shapes", "summaries of all 256 sets of eight section paths with five units of time up to days", shapes);
  add("sections", mc::str("all sequences of ", d, " operations: three section names, stop, on/off, summary, moved stopwatch, wall clock set forward or back"), [d](mc::Run& r) { ops(r, d, false); });
  add("outputs", mc::str("all sequences of ", e, " operations including the choice of five outputs"), [e](mc::Run& r) { ops(r, e, true); });
  add("solvers", "up to three solves of nine small constrained problems with five settings, profiler off, to standard output or to a file before each", solvers);
  return mc::main_driver(argc, argv, s);
}
