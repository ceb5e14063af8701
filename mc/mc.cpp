#include "mc.hpp"

#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <set>

namespace mc {
namespace {

constexpr int kMaxTape = 1 << 14;
constexpr int kPoolSlots = 256;
constexpr int kMaxWorkers = 16;
constexpr uint64_t kSetSize = 1ull << 24;
constexpr int kCovers = 256;
constexpr int kTextSize = 1 << 20;

struct Job {
  int len;
  uint64_t hash;
  uint8_t c[kMaxTape];
};
struct WorkerSlot {
  std::atomic<uint64_t> exec_no;
  std::atomic<double> exec_start;
  std::atomic<int> tape_len;
  uint8_t tape[kMaxTape];
};
struct Cover {
  std::atomic<uint64_t> key;
  char text[96];
  std::atomic<long> count;
};
struct ViolationSlot {
  std::atomic<int> used;
  int len;
  uint8_t tape[kMaxTape];
  char sig[256];
  char msg[8192];
};
struct KnownSlot {
  std::atomic<long> count;
};
struct Shm {
  std::atomic<int> lock;
  std::atomic<int> pool_n;
  std::atomic<int> idle;
  std::atomic<int> stop;
  std::atomic<int> capped;
  std::atomic<long> execs, trans, states, outcomes, ok, choices, maxtape;
  std::atomic<uint64_t> set_full;
  ViolationSlot viol;
  KnownSlot known[128];
  WorkerSlot w[kMaxWorkers];
  Cover covers[kCovers];
  Job pool[kPoolSlots];
  std::atomic<int> text_len;
  char text[kTextSize];
};
Shm* S = nullptr;
std::atomic<uint64_t>* set_states = nullptr;
std::atomic<uint64_t>* set_outcomes = nullptr;
WorkerSlot* my_slot = nullptr;

double now() {
  timespec t;
  // raw system call free of any interposed clock
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
void lock() { int e = 0; while (!S->lock.compare_exchange_weak(e, 1)) { e = 0; } }
void unlock() { S->lock.store(0); }

bool insert(std::atomic<uint64_t>* set, uint64_t h) {
  if (h == 0) h = 1;
  uint64_t i = h & (kSetSize - 1);
  for (int probe = 0; probe < 4096; ++probe) {
    uint64_t cur = set[i].load(std::memory_order_relaxed);
    if (cur == h) return false;
    if (cur == 0) {
      uint64_t e = 0;
      if (set[i].compare_exchange_strong(e, h)) return true;
      if (e == h) return false;
    }
    i = (i + 1) & (kSetSize - 1);
  }
  S->set_full++;
  return false;
}

std::string json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    switch (c) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      case '\r': o += "\\r"; break;
      default:
        if (c < 32 || c > 126) {
          char b[8];
          snprintf(b, sizeof b, "\\u%04x", c);
          o += b;
        } else {
          o += static_cast<char>(c);
        }
    }
  }
  return o + "\"";
}

struct Known {
  std::string property, sig, text;
};
std::vector<Known> g_known;   // accepted known findings of this property

int match_known(const std::string& scen, const std::string& sig) {
  for (size_t i = 0; i < g_known.size(); ++i)
    if (g_known[i].sig == scen + ":" + sig) return static_cast<int>(i);
  return -1;
}

void load_known(const std::string& prop) {
  const char* f = getenv("MC_KNOWN");
  if (!f) return;
  std::ifstream in(f);
  std::string line;
  // known: property=<id> sig=<scenario:signature> | <text>
  while (std::getline(in, line)) {
    if (line.compare(0, 6, "known:") != 0) continue;
    size_t p = line.find("property="), s = line.find("sig="), b = line.find(" | ");
    if (p == std::string::npos || s == std::string::npos || b == std::string::npos) continue;
    std::string id = line.substr(p + 9, line.find(' ', p) - p - 9);
    if (id != prop) continue;
    g_known.push_back({id, line.substr(s + 4, b - s - 4), line.substr(b + 3)});
  }
}

void execute(const Scenario& sc, Run& r) {
  if (my_slot) {
    my_slot->tape_len = 0;
    my_slot->exec_start = now();
    my_slot->exec_no++;
  }
  try {
    sc.body(r);
  } catch (const Violation& v) {
    r.has_violation_ = true;
    r.violation_ = v;
  } catch (const std::exception& e) {
    r.has_violation_ = true;
    r.violation_ = {"unexpected-exception", std::string("exception escaped: ") + e.what()};
  }
  if (!r.has_violation_ && r.tape_.size() < r.prefix_.size()) {
    r.has_violation_ = true;
    r.violation_ = {"nondeterministic", "replaying the same choices ended early: behaviour not determined by inputs"};
  }
  if (my_slot) my_slot->exec_start = 0;
}

void put_text(const std::string& s) {
  int at = S->text_len.fetch_add(static_cast<int>(s.size()));
  if (at + static_cast<int>(s.size()) < kTextSize) memcpy(S->text + at, s.data(), s.size());
}

void report_violation(const Run& r) {
  int e = 0;
  if (S->viol.used.compare_exchange_strong(e, 1)) {
    S->viol.len = static_cast<int>(std::min<size_t>(r.tape_.size(), kMaxTape));
    for (int i = 0; i < S->viol.len; ++i) S->viol.tape[i] = r.tape_[i].c;
    snprintf(S->viol.sig, sizeof S->viol.sig, "%s", r.violation_.sig.c_str());
    snprintf(S->viol.msg, sizeof S->viol.msg, "%s", r.violation_.msg.c_str());
    S->viol.used = 2;
  }
  S->stop = 1;
}

void child_io(int err_fd) {
  int dn = open("/dev/null", O_RDWR);
  dup2(dn, 0);
  dup2(dn, 1);
  if (err_fd >= 0) dup2(err_fd, 2);
  close(dn);
}

[[noreturn]] void worker(const Scenario& sc, int id, int nworkers) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  my_slot = &S->w[id];
  struct LJob {
    std::vector<uint8_t> c;
    uint64_t h;
  };
  std::vector<LJob> st;
  size_t bottom = 0;
  bool idle = false;
  if (sc.warmup) {
    Run r;
    r.warmup_ = true;
    execute(sc, r);
  }
  while (!S->stop) {
    LJob j;
    if (st.size() > bottom) {
      j = std::move(st.back());
      st.pop_back();
    } else {
      st.clear();
      bottom = 0;
      bool got = false;
      lock();
      if (S->pool_n > 0) {
        Job& pj = S->pool[--S->pool_n];
        j.c.assign(pj.c, pj.c + pj.len);
        j.h = pj.hash;
        got = true;
        if (idle) { S->idle--; idle = false; }
      } else if (!idle) {
        S->idle++;
        idle = true;
      }
      bool done = !got && S->idle == nworkers;
      unlock();
      if (done) break;
      if (!got) {
        usleep(200);
        continue;
      }
    }
    Run r;
    r.prefix_ = std::move(j.c);
    r.prefix_hash_ = j.h;
    long en = S->execs.fetch_add(1);
    bool sample = en == 0 || en == 100 || en == 3000;
    r.recording_ = sample;
    execute(sc, r);
    S->choices += static_cast<long>(r.tape_.size());
    long mt = S->maxtape;
    while (static_cast<long>(r.tape_.size()) > mt && !S->maxtape.compare_exchange_weak(mt, r.tape_.size())) {}
    if (r.has_violation_) {
      int k = match_known(sc.name, r.violation_.sig);
      if (k >= 0) {
        S->known[k].count++;
      } else {
        report_violation(r);
        break;
      }
    } else {
      S->ok++;
    }
    if (sample && !r.has_violation_) {
      std::string t = sc.name + ": ";
      for (auto& s : r.trace_) {
        if (t.size() > 900) { t += " ..."; break; }
        t += s + "; ";
      }
      t += "\x01";
      put_text(t);
    }
    // children: every alternative of every choice point after the prefix
    uint64_t h = 1469598103934665603ull;
    std::vector<uint8_t> base;
    base.reserve(r.tape_.size());
    for (size_t i = 0; i < r.tape_.size(); ++i) {
      h = mix(h, r.tape_[i].n);
      if (i >= r.prefix_.size()) {
        for (int a = r.tape_[i].n - 1; a > 0; --a) {
          LJob nj;
          nj.c = base;
          nj.c.push_back(static_cast<uint8_t>(a));
          nj.h = h;
          st.push_back(std::move(nj));
        }
      }
      base.push_back(r.tape_[i].c);
      h = mix(h, r.tape_[i].c);
    }
    // donate the shallowest job when others are starving
    while (S->idle > S->pool_n && st.size() > bottom + 1 && S->pool_n < kPoolSlots - 1) {
      lock();
      if (S->pool_n < kPoolSlots - 1) {
        LJob& d = st[bottom++];
        Job& pj = S->pool[S->pool_n];
        pj.len = static_cast<int>(d.c.size());
        pj.hash = d.h;
        memcpy(pj.c, d.c.data(), d.c.size());
        S->pool_n++;
      }
      unlock();
    }
    if (bottom > 100000) {
      st.erase(st.begin(), st.begin() + bottom);
      bottom = 0;
    }
  }
  _exit(0);
}

std::string tail_file(int fd, size_t n = 3000) {
  off_t e = lseek(fd, 0, SEEK_END);
  off_t b = e > static_cast<off_t>(n) ? e - n : 0;
  std::string s(e - b, 0);
  if (pread(fd, &s[0], s.size(), b) < 0) s.clear();
  return s;
}

// Re-executes one tape in a fresh child. Returns: 0 no failure, 1 violation, 2 crash, 3 hang.
int confirm(const Scenario& sc, const std::vector<uint8_t>& tape, double limit, Violation* v, std::string* trace) {
  S->text_len = 0;
  S->viol.used = 0;
  S->w[0].tape_len = 0;
  int efd = memfd_create("mcerr", 0);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    child_io(efd);
    my_slot = &S->w[0];
    Run r;
    r.prefix_ = tape;
    r.prefix_hash_ = 0;
    r.recording_ = true;
    execute(sc, r);
    std::string t;
    for (auto& s : r.trace_) t += s + "\n";
    put_text(t);
    if (r.has_violation_) report_violation(r);
    _exit(0);
  }
  double t0 = now();
  int stt = 0;
  bool hang = false;
  for (;;) {
    pid_t p = waitpid(pid, &stt, WNOHANG);
    if (p == pid) break;
    if (now() - t0 > limit) {
      hang = true;
      kill(pid, SIGKILL);
      waitpid(pid, &stt, 0);
      break;
    }
    usleep(1000);
  }
  std::string err = tail_file(efd);
  close(efd);
  *trace = std::string(S->text, std::min<int>(S->text_len, kTextSize - 1));
  if (hang) {
    *v = {"hang", "execution did not finish within " + str(limit) + " s when run alone"};
    return 3;
  }
  if (S->viol.used == 2) {
    *v = {S->viol.sig, S->viol.msg};
    return 1;
  }
  if (WIFSIGNALED(stt) || WEXITSTATUS(stt) != 0) {
    *v = {"crash", str("crashed with ", WIFSIGNALED(stt) ? "signal " : "exit code ",
                       WIFSIGNALED(stt) ? WTERMSIG(stt) : WEXITSTATUS(stt), "\n", err)};
    return 2;
  }
  return 0;
}

}  // namespace

bool thorough() {
  const char* t = getenv("VERIF_TIER");
  return t && !strcmp(t, "thorough");
}

int Run::choose(int n, const char* label) {
  if (n <= 0 || n > 255) {
    fprintf(stderr, "mc: bad choice count %d at %s\n", n, label);
    abort();
  }
  if (n == 1) return 0;
  size_t i = tape_.size();
  if (frozen_ && i >= prefix_.size()) return 0;
  hash_ = mix(hash_, n);
  int c = 0;
  if (i < prefix_.size()) {
    c = prefix_[i];
    if (c >= n || (i + 1 == prefix_.size() && prefix_hash_ && prefix_hash_ != hash_)) {
      throw Violation{"nondeterministic", str("replay diverged at choice ", i, " (", label,
                                              "): the same choices led to different behaviour")};
    }
  }
  if (i >= static_cast<size_t>(kMaxTape)) throw Violation{"unbounded", "more choice points than the engine's horizon: execution does not terminate"};
  tape_.push_back({static_cast<uint8_t>(n), static_cast<uint8_t>(c)});
  hash_ = mix(hash_, c);
  if (my_slot) {
    my_slot->tape[i] = static_cast<uint8_t>(c);
    my_slot->tape_len = static_cast<int>(i + 1);
  }
  if (recording_ && label && *label) note(str(label, "=", c));
  return c;
}
int Run::deviate(int n, const char* label) {
  if (budget_ <= 0) return 0;
  int c = choose(n, label);
  if (c) --budget_;
  return c;
}
void Run::transition(long n) { if (S && !warmup_) S->trans += n; }
void Run::state(uint64_t h) { if (S && !warmup_ && insert(set_states, h)) S->states++; }
bool Run::visit(uint64_t h) {
  if (!S || warmup_) return true;
  uint64_t f = S->set_full;
  if (insert(set_states, h)) {
    S->states++;
    return true;
  }
  return S->set_full != f;
}
void Run::outcome(uint64_t h) { if (S && !warmup_ && insert(set_outcomes, h)) S->outcomes++; }
void Run::cover(const char* label) {
  if (!S) return;
  uint64_t h = hashs(7, label);
  for (int i = 0; i < kCovers; ++i) {
    Cover& c = S->covers[(h + i) % kCovers];
    uint64_t k = c.key;
    if (k == 0) {
      uint64_t e = 0;
      if (c.key.compare_exchange_strong(e, h)) {
        snprintf(c.text, sizeof c.text, "%s", label);
        k = h;
      } else {
        k = e;
      }
    }
    if (k == h) {
      c.count++;
      return;
    }
  }
}
void Run::note(const std::string& s) { if (recording_) trace_.push_back(s); }
void Run::fail(const std::string& sig, const std::string& msg) { throw Violation{sig, msg}; }
void Run::fail_deferred(const std::string& sig, const std::string& msg) {
  if (has_violation_) return;
  has_violation_ = true;
  violation_ = {sig, msg};
}

ChildResult in_child(const std::function<void()>& fn, double limit_s) {
  ChildResult res;
  int efd = memfd_create("mcerr", 0);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    my_slot = nullptr;
    child_io(efd);
    std::set_terminate([] { fprintf(stderr, "std::terminate\n"); abort(); });
    try {
      fn();
    } catch (const Violation& v) {
      fprintf(stderr, "VIOLATION %s %s\n", v.sig.c_str(), v.msg.c_str());
      _exit(77);
    } catch (const std::exception& e) {
      fprintf(stderr, "exception: %s\n", e.what());
      _exit(78);
    } catch (...) {
      fprintf(stderr, "exception\n");
      _exit(78);
    }
    _exit(0);
  }
  double t0 = now();
  int stt = 0;
  for (;;) {
    pid_t p = waitpid(pid, &stt, WNOHANG);
    if (p == pid) break;
    if (now() - t0 > limit_s) {
      res.timeout = true;
      kill(pid, SIGKILL);
      waitpid(pid, &stt, 0);
      break;
    }
    usleep(300);
  }
  res.exited = WIFEXITED(stt);
  res.code = res.exited ? WEXITSTATUS(stt) : WTERMSIG(stt);
  res.err = tail_file(efd);
  close(efd);
  return res;
}

CaptureStdout::CaptureStdout() {
  fflush(stdout);
  std::cout.flush();
  saved_ = dup(1);
  fd_ = memfd_create("mcout", 0);
  dup2(fd_, 1);
}
std::string CaptureStdout::get() {
  fflush(stdout);
  std::cout.flush();
  off_t e = lseek(fd_, 0, SEEK_END);
  std::string s(e, 0);
  if (e > 0 && pread(fd_, &s[0], e, 0) != e) s.clear();
  return s;
}
CaptureStdout::~CaptureStdout() {
  fflush(stdout);
  std::cout.flush();
  dup2(saved_, 1);
  close(saved_);
  close(fd_);
}

int main_driver(int argc, char** argv, const Spec& spec) {
  std::string evidence, replay_out, replay_in, only;
  int nworkers = static_cast<int>(std::min<long>(8, sysconf(_SC_NPROCESSORS_ONLN)));
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--evidence") evidence = argv[++i];
    else if (a == "--replay-out") replay_out = argv[++i];
    else if (a == "--replay") replay_in = argv[++i];
    else if (a == "--only") only = argv[++i];
    else if (a == "--workers") nworkers = atoi(argv[++i]);
  }
  if (nworkers < 1) nworkers = 1;
  if (nworkers > kMaxWorkers) nworkers = kMaxWorkers;
  load_known(spec.property);
  auto map = [](size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
  };
  S = static_cast<Shm*>(map(sizeof(Shm)));
  set_states = static_cast<std::atomic<uint64_t>*>(map(kSetSize * 8));
  set_outcomes = static_cast<std::atomic<uint64_t>*>(map(kSetSize * 8));

  if (!replay_in.empty()) {
    std::ifstream in(replay_in);
    std::string line, scen;
    std::vector<uint8_t> tape;
    while (std::getline(in, line)) {
      if (line.compare(0, 10, "scenario: ") == 0) scen = line.substr(10);
      if (line.compare(0, 9, "choices: ") == 0) {
        std::istringstream is(line.substr(9));
        int c;
        while (is >> c) tape.push_back(static_cast<uint8_t>(c));
      }
    }
    for (auto& sc : spec.scenarios)
      if (sc.name == scen) {
        Violation v;
        std::string trace;
        int k = confirm(sc, tape, 120, &v, &trace);
        printf("%s\n", trace.c_str());
        if (k) printf("REPRODUCED %s: %s\n", v.sig.c_str(), v.msg.c_str());
        else printf("not reproduced\n");
        return k ? 1 : 0;
      }
    printf("no such scenario: %s\n", scen.c_str());
    return 2;
  }

  double t_start = now();
  struct Res {
    std::string name, bound;
    long execs, ok, trans, states, outcomes, choices, maxtape;
    bool exhaustive;
    double wall;
  };
  std::vector<Res> results;
  std::vector<std::string> samples;
  std::vector<long> known_counts(g_known.size(), 0);
  bool violated = false, engine_error = false;
  std::string vline;

  for (const Scenario& sc : spec.scenarios) {
    if (!only.empty() && sc.name.find(only) == std::string::npos) continue;
    double t0 = now();
    long covers_keep = 0;
    (void)covers_keep;
    S->lock = 0; S->pool_n = 1; S->idle = 0; S->stop = 0; S->capped = 0;
    S->execs = 0; S->trans = 0; S->states = 0; S->outcomes = 0; S->ok = 0; S->choices = 0; S->maxtape = 0;
    S->viol.used = 0; S->text_len = 0;
    for (auto& k : S->known) k.count = 0;
    S->pool[0].len = 0;
    S->pool[0].hash = 0;
    madvise(set_states, kSetSize * 8, MADV_REMOVE);
    madvise(set_outcomes, kSetSize * 8, MADV_REMOVE);
    std::vector<pid_t> pids(nworkers);
    std::vector<int> efds(nworkers);
    fflush(stdout);
    for (int w = 0; w < nworkers; ++w) {
      S->w[w].exec_no = 0; S->w[w].exec_start = 0; S->w[w].tape_len = 0;
      efds[w] = memfd_create("mcerr", 0);
      pids[w] = fork();
      if (pids[w] == 0) {
        child_io(efds[w]);
        worker(sc, w, nworkers);
      }
    }
    int alive = nworkers;
    int bad = -1;          // worker that crashed or hung
    bool bad_hang = false;
    int bad_status = 0;
    std::vector<bool> gone(nworkers, false);
    while (alive > 0) {
      for (int w = 0; w < nworkers; ++w) {
        if (gone[w]) continue;
        int stt;
        pid_t p = waitpid(pids[w], &stt, WNOHANG);
        if (p == pids[w]) {
          gone[w] = true;
          --alive;
          if ((WIFSIGNALED(stt) || WEXITSTATUS(stt) != 0) && bad < 0 && !(S->stop && S->viol.used == 2)) {
            bad = w;
            bad_status = stt;
            S->stop = 1;
          }
          continue;
        }
        double es = S->w[w].exec_start;
        if (es > 0 && now() - es > sc.exec_limit_s && bad < 0) {
          bad = w;
          bad_hang = true;
          S->stop = 1;
          kill(pids[w], SIGKILL);
        }
      }
      if (sc.time_cap_s > 0 && !S->stop && now() - t0 > sc.time_cap_s) {
        S->capped = 1;
        S->stop = 1;
      }
      if (S->stop && now() - t0 > 0) {
        // give the others a moment, then end them
        double ts = now();
        while (alive > 0 && now() - ts < 3) {
          for (int w = 0; w < nworkers; ++w) {
            int stt;
            if (!gone[w] && waitpid(pids[w], &stt, WNOHANG) == pids[w]) {
              gone[w] = true;
              --alive;
            }
          }
          usleep(500);
        }
        for (int w = 0; w < nworkers; ++w)
          if (!gone[w]) {
            kill(pids[w], SIGKILL);
            int stt;
            waitpid(pids[w], &stt, 0);
            gone[w] = true;
            --alive;
          }
      }
      if (alive > 0) usleep(2000);
    }
    Res r{sc.name, sc.bound, S->execs, S->ok, S->trans, S->states, S->outcomes, S->choices, S->maxtape,
          S->capped == 0 && bad < 0 && S->viol.used == 0, now() - t0};
    {
      std::string t(S->text, std::min<int>(S->text_len, kTextSize - 1));
      size_t b = 0;
      while (true) {
        size_t e = t.find('\x01', b);
        if (e == std::string::npos) break;
        if (samples.size() < 40) samples.push_back(t.substr(b, e - b));
        b = e + 1;
      }
    }
    results.push_back(r);
    for (size_t i = 0; i < g_known.size(); ++i) known_counts[i] += S->known[i].count;
    std::string crash_err = bad >= 0 ? tail_file(efds[bad]) : "";
    bool have = S->viol.used == 2;
    std::vector<uint8_t> tape;
    Violation v;
    if (have) {
      tape.assign(S->viol.tape, S->viol.tape + S->viol.len);
      v = {S->viol.sig, S->viol.msg};
    } else if (bad >= 0) {
      tape.assign(S->w[bad].tape, S->w[bad].tape + std::min<int>(S->w[bad].tape_len, kMaxTape));
      if (bad_hang) v = {"hang", "execution did not finish"};
      else v = {"crash", str("worker died, status ", bad_status, "\n", crash_err)};
    }
    for (int fd : efds) close(fd);
    if (have || bad >= 0) {
      Violation v2;
      std::string trace;
      int k = confirm(sc, tape, bad_hang ? 3 * sc.exec_limit_s + 30 : 60, &v2, &trace);
      if (k == 0 && bad_hang) {
        printf("note: %s: an execution exceeded its limit under load but finished alone; not a violation\n", sc.name.c_str());
        engine_error = true;
        continue;
      }
      std::string how = "reproduced on replay";
      if (k == 0) how = "NOT reproduced on replay (behaviour is not a function of the inputs)";
      else v = v2;
      int kn = match_known(sc.name, v.sig);
      if (kn >= 0) {
        known_counts[kn]++;
        continue;
      }
      violated = true;
      std::ofstream o(replay_out.empty() ? "/dev/null" : replay_out);
      o << "property: " << spec.property << "\nscenario: " << sc.name << "\nsignature: " << v.sig
        << "\ntier: " << (thorough() ? "thorough" : "quick") << "\nstatus: " << how << "\nchoices: ";
      for (uint8_t c : tape) o << static_cast<int>(c) << ' ';
      o << "\nmessage: " << v.msg << "\ntrace:\n" << trace << "\n";
      printf("[%s/%s] %s: %s (%s)\n", spec.property.c_str(), sc.name.c_str(), v.sig.c_str(), v.msg.c_str(), how.c_str());
      printf("VIOLATION property=%s replay=%s\n", spec.property.c_str(), replay_out.c_str());
      fflush(stdout);
      if (!getenv("MC_KEEPGOING")) break;
    }
    printf("[%s/%s] executions=%ld choices=%ld transitions=%ld states=%ld outcomes=%ld %s %.1fs\n",
           spec.property.c_str(), sc.name.c_str(), r.execs, r.choices, r.trans, r.states, r.outcomes,
           r.exhaustive ? "exhaustive" : "NOT exhaustive", r.wall);
    fflush(stdout);
  }
  for (size_t i = 0; i < g_known.size(); ++i)
    if (known_counts[i] > 0)
      printf("KNOWN-FINDING: property=%s %s (%ld executions)\n", spec.property.c_str(), g_known[i].text.c_str(), known_counts[i]);
  if (!evidence.empty()) {
    std::ofstream o(evidence);
    long ex = 0, tr = 0, st = 0, ch = 0, ok = 0;
    bool exh = true;
    for (auto& r : results) {
      ex += r.execs; tr += r.trans; st += r.states; ch += r.choices; ok += r.ok;
      exh = exh && r.exhaustive;
    }
    const char* seed = getenv("VERIF_SEED");
    o << "{\n \"property\": " << json(spec.property) << ",\n \"tier\": \"" << (thorough() ? "thorough" : "quick")
      << "\",\n \"seed\": " << (seed ? atoi(seed) : 1) << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n"
      << "  \"states\": " << st << ",\n  \"transitions\": " << tr << ",\n  \"traces_validated_against_impl\": " << ok
      << ",\n  \"decision_points\": " << ch << ",\n  \"exhaustive\": " << (exh ? "true" : "false")
      << ",\n  \"rule\": " << json(spec.unit) << ",\n  \"scenarios\": [";
    for (size_t i = 0; i < results.size(); ++i) {
      auto& r = results[i];
      o << (i ? "," : "") << "\n   {\"name\": " << json(r.name) << ", \"bound\": " << json(r.bound) << ", \"executions\": " << r.execs
        << ", \"transitions\": " << r.trans << ", \"states\": " << r.states << ", \"distinct_outcomes\": " << r.outcomes
        << ", \"longest_choice_sequence\": " << r.maxtape << ", \"exhaustive\": " << (r.exhaustive ? "true" : "false")
        << ", \"wall_s\": " << r.wall << "}";
    }
    o << "\n  ],\n  \"covered_events\": {";
    bool first = true;
    for (auto& c : S->covers)
      if (c.key) {
        o << (first ? "" : ",") << "\n   " << json(c.text) << ": " << c.count;
        first = false;
      }
    o << "\n  },\n  \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << "\n   " << json(samples[i]);
    o << "\n  ]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < spec.assumptions.size(); ++i) o << (i ? ", " : "") << json(spec.assumptions[i]);
    o << "],\n \"wall_s\": " << now() - t_start << ",\n \"violations\": " << (violated ? 1 : 0) << "\n}\n";
  }
  if (violated) return 1;
  (void)engine_error;
  return 0;
}

}  // namespace mc
