#include "sched.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <chrono>
#include <cstdlib>
#include <exception>
#include <future>
#include <mutex>
#include <new>
#include <unordered_map>

extern "C" char __libc_single_threaded;
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace std {
extern __thread void* __once_callable;
extern __thread void (*__once_call)();
}  // namespace std

extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

namespace sched {
namespace {

constexpr int kMaxT = 12;
constexpr size_t kStack = 512 * 1024;
using u32 = uint32_t;
using u64 = uint64_t;
using mc::mix;

struct VC {
  u32 c[kMaxT];
  void clear() { memset(c, 0, sizeof c); }
  void join(const VC& o) {
    for (int i = 0; i < kMaxT; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum St { kUnused, kRun, kBlocked, kDone };
enum Why { wNone, wMutex, wJoin, wFutex, wCond, wOnce, wSleep, wRw };

struct Fiber {
  St st = kUnused;
  Why why = wNone;
  void* on = nullptr;
  bool timed = false, woken = false, timed_out = false;
  double deadline = 0;
  void* sp = nullptr;
  char* stack = nullptr;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  bool detached = false, joined = false;
  VC vc, acq, relf;
  u64 h = 0;
  u64 nloc = 0;
  u64 eh[2] = {0, 0};
  void* once_callable = nullptr;
  void (*once_call)() = nullptr;
  int err = 0;
  // spinning
  bool spin = false;          // disabled until somebody else changes something it has read
  bool dirty = false;         // ... which has happened since the read
  long run_len = 0;           // scheduling points without a switch
};

struct Loc {              // synchronisation object (atomic, mutex, once, cond)
  VC vc;
  u64 id = 0;             // canonical: first accessor and its access number
  u64 h = 0;
  int owner = -1;         // mutex
  int depth = 0;
  bool contended = false; // a try_lock failed while held
  int readers = 0;
};

struct Rec {
  u32 clk;
  uint8_t tid, mask, write, pad;
};
struct Cell {
  u64 key;
  u32 gen;
  uint8_t n;
  bool freed;
  Rec r[8];
};
constexpr size_t kCells = 1 << 18;

Fiber F[kMaxT];
int cur = -1;
bool active = false;
mc::Run* R = nullptr;
Options O;
void* sched_sp = nullptr;
std::unordered_map<void*, Loc>* locs = nullptr;
Cell* cells = nullptr;
u32 gen = 0;
size_t ncells_used = 0;
u64 loc_sum = 0;
Loc exc_loc;               // stands for the reference counts of exception objects (atomic, inside libstdc++)
int preempt_left = 0;
long steps = 0;
double vtime = 0;
int fail_nth = -1, create_count = 0;
long n_timeouts = 0;
int expiries_left = 0;
long idle_rounds = 0;
long spin_rounds = 0;
const std::function<void()>* g_body = nullptr;
bool abandon = false;
bool in_rt = false;     // inside the runtime: ignore memory hooks

struct Guard {
  bool old;
  Guard() : old(in_rt) { in_rt = true; }
  ~Guard() { in_rt = old; }
};

// What a thread has read since it last came back from a yield: repeating a polling loop is pointless
// until another thread writes one of these cells.
constexpr size_t kReads = 8192;
struct ReadSet {
  u64 key[kReads];
  u32 stamp[kReads];
  u32 gen = 1;
  u32 n = 0;
  bool wild = false;  // too many reads: any write counts
  void clear() {
    ++gen;
    n = 0;
    wild = false;
  }
  void add(u64 k) {
    if (wild) return;
    if (n > kReads / 2) {
      wild = true;
      return;
    }
    for (size_t i = (k * 0x9E3779B97F4A7C15ull) >> 51;; i = (i + 1) & (kReads - 1)) {
      if (stamp[i] != gen) {
        stamp[i] = gen;
        key[i] = k;
        ++n;
        return;
      }
      if (key[i] == k) return;
    }
  }
  void drop(u64 k) {  // the cell's memory was freed: the address means nothing from now on
    if (n == 0) return;
    for (size_t i = (k * 0x9E3779B97F4A7C15ull) >> 51;; i = (i + 1) & (kReads - 1)) {
      if (stamp[i] != gen) return;
      if (key[i] == k) {
        key[i] = ~0ull;
        return;
      }
    }
  }
  bool has(u64 k) const {
    if (wild) return true;
    if (n == 0) return false;
    for (size_t i = (k * 0x9E3779B97F4A7C15ull) >> 51;; i = (i + 1) & (kReads - 1)) {
      if (stamp[i] != gen) return false;
      if (key[i] == k) return true;
    }
  }
};
ReadSet* reads = nullptr;  // one per fiber
int nfibers = 0;           // fibers used so far in this execution
inline void did_read(u64 k) { reads[cur].add(k); }
inline void did_write(u64 k) {
  for (int i = 0; i < nfibers; ++i)
    if (i != cur && !F[i].dirty && F[i].st == kRun && reads[i].has(k)) F[i].dirty = true;
}
inline u64 key_of(const void* a) { return reinterpret_cast<u64>(a) >> 3; }

Loc& loc(void* a) {
  auto it = locs->find(a);
  if (it != locs->end()) return it->second;
  Loc l;
  l.vc.clear();
  l.id = mix(mix(17, cur), F[cur].nloc++);
  l.h = 0;
  return locs->emplace(a, l).first->second;
}
void set_h(Loc& l, u64 h) {
  loc_sum -= mix(l.id, l.h);
  l.h = h;
  loc_sum += mix(l.id, l.h);
}
void tick() { F[cur].vc.c[cur]++; }
void acquire(Loc& l) { F[cur].vc.join(l.vc); }
void release_set(Loc& l) { l.vc = F[cur].vc; tick(); }
void release_join(Loc& l) { l.vc.join(F[cur].vc); tick(); }

void save_tls(Fiber& f) {
  u64* g = reinterpret_cast<u64*>(abi::__cxa_get_globals());
  f.eh[0] = g[0];
  f.eh[1] = g[1];
  f.once_callable = std::__once_callable;
  f.once_call = std::__once_call;
  f.err = errno;
}
void load_tls(Fiber& f) {
  u64* g = reinterpret_cast<u64*>(abi::__cxa_get_globals());
  g[0] = f.eh[0];
  g[1] = f.eh[1];
  std::__once_callable = f.once_callable;
  std::__once_call = f.once_call;
  errno = f.err;
}

void to_scheduler() {  // never returns to an abandoned execution
  save_tls(F[cur]);
  void* dummy;
  mc_switch(&dummy, sched_sp);
  __builtin_unreachable();
}

[[noreturn]] void die(const std::string& sig, const std::string& msg) {
  in_rt = true;
  R->fail_deferred(sig, msg);
  abandon = true;
  to_scheduler();
  __builtin_unreachable();
}

void switch_to(int t) {
  if (t == cur) return;
  int old = cur;
  save_tls(F[old]);
  cur = t;
  load_tls(F[t]);
  mc_switch(&F[old].sp, F[t].sp);
}

bool can_run(int t) {
  Fiber& f = F[t];
  if (f.st == kRun) {
    if (f.spin && !f.dirty) return false;
    return true;
  }
  if (f.st == kBlocked) {
    if (f.woken) return true;
    switch (f.why) {
      case wMutex: return loc(f.on).owner < 0 && loc(f.on).readers == 0;
      case wJoin: return F[reinterpret_cast<uintptr_t>(f.on)].st == kDone;
      case wOnce: return *static_cast<volatile int*>(f.on) != 1;
      default: return false;
    }
  }
  return false;
}

std::string where() {
  static const char* W[] = {"-", "mutex", "join", "future/futex", "condition", "once", "sleep", "rwlock"};
  std::string s;
  for (int i = 0; i < kMaxT; ++i)
    if (F[i].st == kRun || F[i].st == kBlocked)
      s += mc::str(" T", i, F[i].st == kRun ? (F[i].spin ? ":spinning" : ":runnable") : mc::str(":waiting-", W[F[i].why]));
  return s;
}

u64 state_hash() {
  u64 h = loc_sum;
  for (int i = 0; i < kMaxT; ++i) {
    if (F[i].st == kUnused) continue;
    h = mix(h, F[i].h);
    h = mix(h, F[i].st * 64 + F[i].why * 4 + F[i].woken * 2 + (F[i].spin && !F[i].dirty));
  }
  return h;
}

void expire(int t) {
  if (F[t].deadline > vtime) vtime = F[t].deadline;
  F[t].woken = true;
  F[t].timed_out = true;
  if (F[t].why != wSleep) {
    n_timeouts++;
    if (R->recording()) R->note(mc::str("T", t, " times out"));
  }
  for (int i = 0; i < nfibers; ++i) F[i].dirty = true;  // the clock is an input too
  idle_rounds = 0;
}

// Chooses the next thread. `self_ok`: the current thread can go on. `is_yield`: leaving is free.
void reschedule(bool self_ok, bool is_yield) {
  Guard g;
  if (++steps > O.step_limit)
    die("livelock", mc::str("execution exceeded ", O.step_limit, " scheduling points:", where()));
  for (;;) {
    int cand[2 * kMaxT], n = 0;   // cand >= kMaxT: the time limit of thread cand - kMaxT expires
    bool free_switch = !self_ok || is_yield;
    if (self_ok && !is_yield) cand[n++] = cur;
    // fairness: an endless run of one thread is treated as a yield
    if (self_ok && !is_yield && F[cur].run_len > 3000) {
      free_switch = true;
      n = 0;
      F[cur].run_len = 0;
    }
    bool runnable_other = false;
    for (int i = 0; i < kMaxT; ++i) {
      if (i == cur && (self_ok && !is_yield)) continue;
      if (i == cur && !self_ok) {
        if (!can_run(i)) continue;
      }
      if (i == cur && is_yield) continue;
      if (F[i].st != kUnused && F[i].st != kDone && can_run(i)) {
        runnable_other = true;
        if (free_switch || preempt_left > 0) cand[n++] = i;
      }
    }
    if (n == 0 && is_yield && can_run(cur)) cand[n++] = cur;
    if (n == 0 && self_ok && !is_yield) cand[n++] = cur;
    if (n > 0 && expiries_left > 0)
      for (int i = 0; i < kMaxT; ++i)
        if (F[i].st == kBlocked && F[i].timed && F[i].why != wSleep && !can_run(i)) cand[n++] = kMaxT + i;
    (void)runnable_other;
    if (n == 0) {
      // nobody can make progress: spinners get a few more iterations, then the earliest time limit
      // expires, then it is a deadlock
      bool any_spin = false;
      int timed = -1;
      for (int i = 0; i < kMaxT; ++i) {
        if (F[i].st == kRun && F[i].spin) any_spin = true;
        if (F[i].st == kBlocked && F[i].timed && (timed < 0 || F[i].deadline < F[timed].deadline)) timed = i;
      }
      if (any_spin && (idle_rounds < 3 || (timed < 0 && idle_rounds < 200))) {
        ++idle_rounds;
        for (int i = 0; i < kMaxT; ++i)
          if (F[i].st == kRun && F[i].spin) F[i].dirty = true;
        continue;
      }
      if (timed >= 0) {
        expire(timed);
        continue;
      }
      bool main_done = F[0].st == kDone;
      if (main_done) {
        abandon = true;
        to_scheduler();
      }
      die("deadlock", "no thread can make progress:" + where());
    }
    int pick = 0;
    if (n > 1) {
      if (O.prune && !R->frozen_ && R->tape_.size() >= R->prefix_.size()) {
        u64 h = mix(mix(state_hash(), cur * 2 + self_ok), (preempt_left * 8 + expiries_left) * 4 + is_yield);
        if (!R->visit(h)) R->frozen_ = true;
      }
      try {
        pick = R->choose(n, "");
      } catch (const mc::Violation& v) {
        die(v.sig, v.msg);
      }
    }
    int t = cand[pick];
    R->transition();
    if (t >= kMaxT) {   // go on choosing: the expiry only makes the thread runnable
      --expiries_left;
      expire(t - kMaxT);
      continue;
    }
    if (t != cur && self_ok && !free_switch) preempt_left--;
    if (R->recording() && t != cur) R->note(mc::str("->T", t));
    if (t == cur) {
      F[cur].run_len++;
    } else {
      F[cur].run_len = 0;
      F[t].run_len = 0;
    }
    switch_to(t);
    return;
  }
}

void point() {
  if (F[cur].spin) F[cur].spin = false;
  reschedule(true, false);
  F[cur].h = mix(F[cur].h, 99);  // its program counter: the operation at this point is now behind it
}

void yield_point() {
  Fiber& f = F[cur];
  Guard g;
  // f.spin is true only while waiting at the yield itself
  f.spin = true;
  // if somebody changed something it read during this iteration it may be repeated at once (others first)
  reschedule(true, true);
  f.spin = false;
  f.dirty = false;
  f.h = mix(f.h, 98);
  reads[cur].clear();
}

void block(Why w, void* on, bool timed = false, double deadline = 0) {
  Fiber& f = F[cur];
  f.st = kBlocked;
  f.why = w;
  f.on = on;
  f.timed = timed;
  f.deadline = deadline;
  f.woken = false;
  f.timed_out = false;
  reschedule(false, false);
  f.st = kRun;
  f.why = wNone;
  f.timed = false;
  f.woken = false;
}

void progress() { idle_rounds = 0; }

extern "C" void mc_fiber_entry() noexcept {
  int me = cur;
  if (me == 0) {
    try {
      in_rt = false;
      (*g_body)();
    } catch (const mc::Violation& v) {
      in_rt = true;
      R->fail_deferred(v.sig, v.msg);
      abandon = true;
    }
    in_rt = true;
    if (R->has_violation_) abandon = true;
  } else {
    in_rt = false;
    F[me].ret = F[me].fn(F[me].arg);   // noexcept: an escaping exception terminates, as in reality
    in_rt = true;
  }
  Fiber& f = F[me];
  tick();
  f.st = kDone;
  progress();
  if (me == 0 || abandon) {
    // thread 0 is the whole program: joinable threads still running are checked by the harness
    abandon = true;
    to_scheduler();
  }
  in_rt = false;
  reschedule(false, false);
  abort();
}

void start_fiber(int t) {
  Fiber& f = F[t];
  if (!f.stack) {
    f.stack = static_cast<char*>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    mprotect(f.stack, 4096, PROT_NONE);
  }
  u64* top = reinterpret_cast<u64*>(f.stack + kStack - 64);
  // layout popped by mc_switch: r15 r14 r13 r12 rbx rbp ret
  top -= 1;
  *top = 0;  // alignment / fake return address of entry
  *--top = reinterpret_cast<u64>(&mc_fiber_entry);
  for (int i = 0; i < 6; ++i) *--top = 0;
  f.sp = top;
}

// ---------------------------------------------------------------- data races
Cell* cell(u64 key, bool create) {
  size_t i = (key * 0x9E3779B97F4A7C15ull) >> 46;
  for (int p = 0; p < 64; ++p) {
    Cell& c = cells[(i + p) & (kCells - 1)];
    if (c.gen != gen) {
      if (!create) return nullptr;
      c.gen = gen;
      c.key = key;
      c.n = 0;
      c.freed = false;
      ++ncells_used;
      return &c;
    }
    if (c.key == key) return &c;
  }
  return nullptr;
}

std::string symbol();
void race(const char* what, u64 addr, int other, bool other_write, bool write, int size) {
  bool stack = false;
  for (int i = 0; i < kMaxT; ++i)
    if (F[i].stack && addr >= reinterpret_cast<u64>(F[i].stack) && addr < reinterpret_cast<u64>(F[i].stack) + kStack) stack = true;
  die(what, mc::str("unsynchronised ", write ? "write" : "read", " of ", size, " bytes by T", cur, " with a ",
                    other_write ? "write" : "read", " by T", other, stack ? " (stack object)" : " (heap or global object)", " at ", symbol()));
}

inline void access1(u64 a8, uint8_t mask, bool write, int size) {
  Cell* c = cell(a8, true);
  if (!c) return;
  Fiber& f = F[cur];
  if (c->freed) die("use-after-free", mc::str("T", cur, " accesses ", size, " bytes of memory that was freed"));
  u32 clk = f.vc.c[cur];
  int j = 0;
  bool covered = false;
  for (int i = 0; i < c->n; ++i) {
    Rec& r = c->r[i];
    if (r.tid == cur) {
      if (r.mask == mask && r.write == write) {
        r.clk = clk;
        covered = true;
      } else if (write && (r.mask & mask) == r.mask && !r.write) {
        continue;  // own older read subsumed by this write
      }
    } else if ((r.mask & mask) && (r.write || write)) {
      if (r.clk > f.vc.c[r.tid]) race("data-race", a8 << 3, r.tid, r.write, write, size);
      if (write && (r.mask & mask) == r.mask) continue;  // ordered before and subsumed
    }
    c->r[j++] = r;
  }
  c->n = j;
  if (!covered) {
    if (c->n == 8) {
      memmove(&c->r[0], &c->r[1], 7 * sizeof(Rec));
      c->n = 7;
    }
    c->r[c->n++] = {clk, static_cast<uint8_t>(cur), mask, static_cast<uint8_t>(write), 0};
  }
}

inline bool own_stack(u64 a) {
  u64 s = reinterpret_cast<u64>(F[cur].stack);
  return a >= s && a < s + kStack;
}

// thread-local storage of the host thread (all fibers share it; the runtime saves what matters)
u64 tls_lo[8], tls_hi[8];
int tls_n = -1;
int tls_cb(struct dl_phdr_info* i, size_t, void*) {
  if (i->dlpi_tls_data)
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_TLS && tls_n < 8) {
        tls_lo[tls_n] = reinterpret_cast<u64>(i->dlpi_tls_data);
        tls_hi[tls_n++] = reinterpret_cast<u64>(i->dlpi_tls_data) + i->dlpi_phdr[k].p_memsz;
      }
  return 0;
}
bool in_tls(u64 a) {
  for (int k = 0; k < tls_n; ++k)
    if (a >= tls_lo[k] && a < tls_hi[k]) return true;
  return false;
}

void access(const void* p, size_t size, bool write) {
  if (!active || in_rt || in_tls(reinterpret_cast<u64>(p))) return;
  in_rt = true;
  u64 a = reinterpret_cast<u64>(p);
  bool shared = !own_stack(a);
  if (write && shared) progress();
  u64 end = a + size;
  while (a < end) {
    u64 g8 = a >> 3;
    if (shared) {
      if (write) did_write(g8);
      else did_read(g8);
    }
    int off = a & 7;
    int n = static_cast<int>(std::min<u64>(8 - off, end - a));
    access1(g8, static_cast<uint8_t>(((1 << n) - 1) << off), write, static_cast<int>(size));
    a += n;
  }
  in_rt = false;
}

void mem_reset(void* p, size_t n) {  // fresh memory
  if (!active || !p || !n || n > (1 << 16)) return;
  Guard g;
  u64 a = reinterpret_cast<u64>(p);
  for (u64 k = a >> 3; k <= (a + n - 1) >> 3; ++k) {
    Cell* c = cell(k, false);
    if (c) {
      c->n = 0;
      c->freed = false;
    }
  }
  if (!g.old && n <= 4096 && !locs->empty())
    for (u64 k = a & ~3ull; k < a + n; k += 4) {
      auto it = locs->find(reinterpret_cast<void*>(k));
      if (it != locs->end()) {
        loc_sum -= mix(it->second.id, it->second.h);
        locs->erase(it);
      }
    }
}
void mem_free(void* p, size_t n) {
  if (!active || in_rt || !p || n > (1 << 16)) return;
  access(p, n, true);
  Guard g;
  u64 a = reinterpret_cast<u64>(p);
  for (u64 k = a >> 3; k <= (a + n - 1) >> 3; ++k) {
    Cell* c = cell(k, false);
    if (c) c->freed = true;
    reads[cur].drop(k);
  }
}

}  // namespace

std::vector<Ev>* evs = nullptr;
long ev_clock = 0;
u64 ev_h = 0;
void ev_hash(u64 v) {  // the real-time order of calls and returns is part of the state
  F[cur].h = mix(mix(F[cur].h, ev_h), v);
  loc_sum -= mix(77, ev_h);
  ev_h = F[cur].h;
  loc_sum += mix(77, ev_h);
}
int ev_call(int op, long arg) {
  point();
  Guard g;
  evs->push_back({cur, op, arg, 0, ev_clock++, -1});
  ev_hash(1000 + op);
  return static_cast<int>(evs->size()) - 1;
}
void ev_ret(int id, long res) {
  Guard g;
  (*evs)[id].res = res;
  (*evs)[id].ret = ev_clock++;
  ev_hash(2000 + res);
}
const std::vector<Ev>& events() { return *evs; }

int tid() { return cur; }
void note(const std::string& s) {
  Guard g;
  if (R && R->recording()) R->note(mc::str("T", cur, ": ", s));
}
void fail(const std::string& sig, const std::string& msg) { die(sig, msg); }
void fail_thread_creation(int nth) { fail_nth = nth < 0 ? -1 : create_count + nth; }
long timeouts() { return n_timeouts; }
int created_threads() { return create_count; }
int live_threads() {
  int n = 0;
  for (int i = 1; i < kMaxT; ++i)
    if (F[i].st == kRun || F[i].st == kBlocked) ++n;
  return n;
}
uint64_t history() { return F[cur].h; }
void mix_history(uint64_t v) { F[cur].h = mix(F[cur].h, v); }

void run(mc::Run& r, const Options& o, const std::function<void()>& body) {
  if (!cells) {
    cells = static_cast<Cell*>(mmap(nullptr, kCells * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    locs = new std::unordered_map<void*, Loc>();
    locs->reserve(4096);
  }
  __libc_single_threaded = 0;
  if (tls_n < 0) {
    tls_n = 0;
    dl_iterate_phdr(tls_cb, nullptr);
  }
  R = &r;
  O = o;
  if (getenv("MC_NOPRUNE")) O.prune = false;  // validation of the pruning itself
  if (!evs) {
    evs = new std::vector<Ev>();
    evs->reserve(64);
  }
  evs->clear();
  ev_clock = 0;
  ev_h = 0;
  ++gen;
  ncells_used = 0;
  locs->clear();
  exc_loc = Loc();
  exc_loc.vc.clear();
  for (auto& f : F) {
    char* s = f.stack;
    f = Fiber();
    f.stack = s;
    f.vc.clear();
    f.acq.clear();
    f.relf.clear();
  }
  if (!reads) {
    void* mem = mmap(nullptr, kMaxT * sizeof(ReadSet), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    reads = new (mem) ReadSet[kMaxT];
  }
  for (int i = 0; i < kMaxT; ++i) reads[i].clear();
  nfibers = 1;
  loc_sum = 0;
  preempt_left = o.preemptions;
  expiries_left = o.expiries;
  steps = 0;
  vtime = 1000;
  fail_nth = -1;
  create_count = 0;
  n_timeouts = 0;
  idle_rounds = 0;
  g_body = &body;
  abandon = false;
  start_fiber(0);
  F[0].st = kRun;
  F[0].vc.c[0] = 1;
  F[0].h = mix(1, r.hash_);   // the choices made so far (program, configuration) are part of the state
  Fiber host;
  save_tls(host);
  load_tls(F[0]);
  cur = 0;
  in_rt = true;
  active = true;
  mc_switch(&sched_sp, F[0].sp);
  active = false;
  in_rt = false;
  cur = -1;
  load_tls(host);
  if (r.has_violation_) throw r.violation_;
}

// -------------------------------------------------------------------- hooks used below
namespace hook {
extern void* last_pc;
}
namespace {
std::string symbol() {
  Dl_info i;
  if (hook::last_pc && dladdr(hook::last_pc, &i) && i.dli_sname) {
    int st = 0;
    char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string s = d ? d : i.dli_sname;
    __libc_free(d);
    return s.substr(0, 300) + mc::str(" +", reinterpret_cast<char*>(hook::last_pc) - reinterpret_cast<char*>(i.dli_saddr), " exe+", static_cast<void*>(reinterpret_cast<char*>(hook::last_pc) - reinterpret_cast<size_t>(i.dli_fbase)));
  }
  return "?";
}
}
namespace hook {
bool on() { return active && !in_rt; }

void mutex_lock(void* m, bool recursive_ok) {
  point();
  Guard g;
  Loc* l = &loc(m);
  if (l->owner == cur) {
    if (recursive_ok) {
      l->depth++;
      return;
    }
    die("deadlock", "thread locks a mutex it already holds (self-deadlock):" + where());
  }
  while (loc(m).owner >= 0 || loc(m).readers > 0) {
    in_rt = false;
    block(wMutex, m);
    in_rt = true;
  }
  l = &loc(m);
  l->owner = cur;
  l->depth = 1;
  l->contended = false;
  acquire(*l);
  F[cur].h = mix(mix(F[cur].h, 101), mix(l->id, l->h));
}
bool mutex_trylock(void* m) {
  point();
  Guard g;
  Loc& l = loc(m);
  if (l.owner >= 0 || l.readers > 0) {
    l.contended = true;
    did_read(key_of(m));
    F[cur].h = mix(mix(F[cur].h, 102), l.id);
    return false;
  }
  l.owner = cur;
  l.depth = 1;
  l.contended = false;
  acquire(l);
  F[cur].h = mix(mix(F[cur].h, 103), mix(l.id, l.h));
  return true;
}
void mutex_unlock(void* m) {
  Guard g;
  Loc& l = loc(m);
  if (l.owner != cur) die("bad-unlock", "mutex unlocked by a thread that does not hold it");
  if (--l.depth > 0) return;
  l.owner = -1;
  if (l.contended) did_write(key_of(m));
  l.contended = false;
  release_set(l);
  F[cur].h = mix(F[cur].h, 104);
  set_h(l, F[cur].h);
}

void wake(Why w, void* on, bool all) {
  for (;;) {
    int c[kMaxT], n = 0;
    for (int i = 0; i < kMaxT; ++i)
      if (F[i].st == kBlocked && F[i].why == w && F[i].on == on && !F[i].woken) c[n++] = i;
    if (n == 0) return;
    int k = (all || n == 1) ? 0 : R->choose(n, "");
    F[c[k]].woken = true;
    progress();
    if (!all) return;
  }
}

bool futex_wait(unsigned* a, unsigned val, bool timed, double deadline) {
  point();
  {
    Guard g;
    F[cur].h = mix(F[cur].h, 105);
    if (*a != val) return true;
  }
  block(wFutex, a, timed, deadline);
  return !F[cur].timed_out;
}
void futex_wake(unsigned* a) {
  point();
  Guard g;
  wake(wFutex, a, true);
}

bool cond_wait(void* c, void* m, bool timed, double deadline) {
  {
    Guard g;
    loc(c);
  }
  mutex_unlock(m);
  block(wCond, c, timed, deadline);
  bool to = F[cur].timed_out;
  {
    Guard g;
    if (!to) acquire(loc(c));
    F[cur].h = mix(mix(F[cur].h, 106 + to), loc(c).h);
  }
  mutex_lock(m, false);
  return !to;
}
void cond_signal(void* c, bool all) {
  point();
  Guard g;
  Loc& l = loc(c);
  release_join(l);
  F[cur].h = mix(F[cur].h, 108);
  set_h(l, F[cur].h);
  wake(wCond, c, all);
}

int create(pthread_t* out, bool detached, void* (*fn)(void*), void* arg) {
  point();
  Guard g;
  int n = create_count++;
  F[cur].h = mix(F[cur].h, 109);
  if (n == fail_nth) {
    if (R->recording()) R->note(mc::str("T", cur, ": thread creation fails"));
    return EAGAIN;
  }
  int t = -1;
  for (int i = 1; i < kMaxT; ++i)
    if (F[i].st == kUnused) {
      t = i;
      break;
    }
  if (t < 0) die("too-many-threads", "the harness bound on threads was exceeded");
  Fiber& f = F[t];
  f.fn = fn;
  f.arg = arg;
  f.detached = detached;
  f.st = kRun;
  f.vc = F[cur].vc;
  f.vc.c[t]++;
  f.h = mix(mix(F[cur].h, 110), t);
  tick();
  start_fiber(t);
  *out = static_cast<pthread_t>(t + 1);
  if (t >= nfibers) nfibers = t + 1;
  progress();
  if (R->recording()) R->note(mc::str("T", cur, ": creates T", t));
  return 0;
}
int join(pthread_t p) {
  point();
  int t = static_cast<int>(p) - 1;
  {
    Guard g;
    if (t < 0 || t >= kMaxT || F[t].st == kUnused || F[t].joined || F[t].detached) return EINVAL;
  }
  if (t == cur) return EDEADLK;
  while (F[t].st != kDone) block(wJoin, reinterpret_cast<void*>(static_cast<uintptr_t>(t)));
  Guard g;
  F[t].joined = true;
  F[cur].vc.join(F[t].vc);
  F[cur].h = mix(mix(F[cur].h, 111), F[t].h);
  return 0;
}
int once(int* ctl, void (*fn)()) {
  point();
  for (;;) {
    {
      Guard g;
      Loc& l = loc(ctl);
      if (*ctl == 2) {
        acquire(l);
        F[cur].h = mix(mix(F[cur].h, 112), l.h);
        return 0;
      }
      if (*ctl == 0) {
        *ctl = 1;
        break;
      }
    }
    block(wOnce, ctl);
  }
  try {
    fn();
  } catch (...) {
    Guard g;
    *ctl = 0;
    throw;
  }
  Guard g;
  *ctl = 2;
  Loc& l = loc(ctl);
  release_join(l);
  F[cur].h = mix(F[cur].h, 113);
  set_h(l, F[cur].h);
  progress();
  return 0;
}
void sleep_for(double s) {
  point();
  double d = vtime + (s > 0 ? s : 0);
  block(wSleep, nullptr, true, d);
}

// atomics -------------------------------------------------------------
enum { relaxed = 0, consume = 1, acq = 2, rel = 3, acqrel = 4, seq = 5 };
inline bool is_acq(int mo) { mo &= 0x7fff; return mo == consume || mo == acq || mo == acqrel || mo == seq; }
inline bool is_rel(int mo) { mo &= 0x7fff; return mo == rel || mo == acqrel || mo == seq; }

void freed_check(void* a) {
  Cell* c = cell(reinterpret_cast<u64>(a) >> 3, false);
  if (c && c->freed) die("use-after-free", mc::str("T", cur, " performs an atomic operation on memory that was freed"));
}
void pre(void* a) {
  point();
  Guard g;
  freed_check(a);
}
void plain_vs_atomic(void* a, size_t n, bool write) {
  // an atomic access conflicts with unsynchronised plain accesses
  u64 x = reinterpret_cast<u64>(a);
  Cell* c = cell(x >> 3, false);
  if (!c) return;
  uint8_t mask = static_cast<uint8_t>(((1 << n) - 1) << (x & 7));
  for (int i = 0; i < c->n; ++i) {
    Rec& r = c->r[i];
    if (r.tid != cur && (r.mask & mask) && (r.write || write) && r.clk > F[cur].vc.c[r.tid])
      race("data-race", x, r.tid, r.write, write, static_cast<int>(n));
  }
}
void did_load(void* a, size_t n, int mo) {
  Guard g;
  plain_vs_atomic(a, n, false);
  did_read(key_of(a));
  Loc& l = loc(a);
  if (is_acq(mo)) acquire(l);
  else F[cur].acq.join(l.vc);
  F[cur].h = mix(mix(F[cur].h, 120), mix(l.id, l.h));
}
void did_store(void* a, size_t n, int mo, bool change) {
  Guard g;
  plain_vs_atomic(a, n, true);
  Loc& l = loc(a);
  if (is_rel(mo)) release_set(l);
  else l.vc = F[cur].relf;
  F[cur].h = mix(mix(F[cur].h, 121), l.id);
  set_h(l, F[cur].h);
  if (change) {
    did_write(key_of(a));
    progress();
  }
}
void did_rmw(void* a, size_t n, int mo, bool change) {
  Guard g;
  plain_vs_atomic(a, n, true);
  did_read(key_of(a));
  Loc& l = loc(a);
  if (is_acq(mo)) acquire(l);
  else F[cur].acq.join(l.vc);
  if (is_rel(mo)) release_join(l);
  else l.vc.join(F[cur].relf);
  F[cur].h = mix(mix(F[cur].h, 122), mix(l.id, l.h));
  set_h(l, F[cur].h);
  if (change) {
    did_write(key_of(a));
    progress();
  }
}
void fence(int mo) {
  point();
  Guard g;
  if (is_acq(mo)) F[cur].vc.join(F[cur].acq);
  if (is_rel(mo)) {
    F[cur].relf = F[cur].vc;
    tick();
  }
  F[cur].h = mix(F[cur].h, 123);
}
void yield() { yield_point(); }
void exception_ref() {   // dropping a reference to an exception object; happens-before only, no scheduling point
  Guard g;
  acquire(exc_loc);
  release_join(exc_loc);
}
double now() { return vtime; }
void* last_pc = nullptr;
inline __attribute__((always_inline)) void acc(const void* p, size_t n, bool w) { last_pc = __builtin_return_address(0); access(p, n, w); }
}  // namespace hook
}  // namespace sched

using namespace sched;

// ------------------------------------------------------------------ pthread interposition
static double abs_s(const struct timespec* t) { return t->tv_sec + 1e-9 * t->tv_nsec; }
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!hook::on()) abort();
  int d = 0;
  if (a) pthread_attr_getdetachstate(a, &d);
  return hook::create(t, d == PTHREAD_CREATE_DETACHED, fn, arg);
}
int pthread_join(pthread_t t, void**) { return hook::on() ? hook::join(t) : 0; }
int pthread_detach(pthread_t t) {
  if (active) F[t - 1].detached = true;
  return 0;
}
pthread_t pthread_self() { return active ? static_cast<pthread_t>(cur + 1) : 1; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (hook::on()) hook::mutex_lock(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (hook::on()) return hook::mutex_trylock(m) ? 0 : EBUSY;
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (hook::on()) hook::mutex_unlock(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (hook::on()) hook::mutex_lock(m, false);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {   // modelled as exclusive (fewer behaviours)
  if (hook::on()) hook::mutex_lock(m, false);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (hook::on()) hook::mutex_unlock(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (hook::on()) hook::cond_wait(c, m, false, 0);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (hook::on()) return hook::cond_wait(c, m, true, abs_s(t)) ? 0 : ETIMEDOUT;
  return 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) {
  return pthread_cond_timedwait(c, m, t);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (hook::on()) hook::cond_signal(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (hook::on()) hook::cond_signal(c, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_once(pthread_once_t* c, void (*fn)()) {
  if (hook::on()) return hook::once(c, fn);
  if (*c == 0) {
    fn();
    *c = 2;
  }
  return 0;
}
int sched_yield() {
  if (hook::on()) hook::yield();
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec*) {
  if (hook::on()) {
    hook::sleep_for(abs_s(t));
    return 0;
  }
  return static_cast<int>(syscall(SYS_nanosleep, t, nullptr));
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* t, struct timespec*) {
  if (hook::on()) {
    hook::sleep_for(flags ? abs_s(t) - hook::now() : abs_s(t));
    return 0;
  }
  return static_cast<int>(syscall(SYS_nanosleep, t, nullptr));
}
int usleep(useconds_t u) {
  struct timespec t = {static_cast<time_t>(u / 1000000), static_cast<long>(u % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
int clock_gettime(clockid_t c, struct timespec* t) {
  if (active) {
    t->tv_sec = static_cast<time_t>(vtime);
    t->tv_nsec = static_cast<long>((vtime - static_cast<double>(t->tv_sec)) * 1e9);
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, c, t));
}

// ------------------------------------------------------------------ allocation
void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (active && p) mem_reset(p, malloc_usable_size(p));
  return p;
}
void free(void* p) {
  if (active && !in_rt && p) mem_free(p, malloc_usable_size(p));
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  void* p = __libc_calloc(a, b);
  if (active) mem_reset(p, a * b);
  return p;
}
void* realloc(void* p, size_t n) {
  if (active && !in_rt && p) {
    size_t o = malloc_usable_size(p);
    void* q = malloc(n);
    if (q) {
      memcpy(q, p, o < n ? o : n);
      free(p);
    }
    return q;
  }
  return __libc_realloc(p, n);
}
void* memalign(size_t a, size_t n) {
  void* p = __libc_memalign(a, n);
  if (active) mem_reset(p, n);
  return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) {
  *o = memalign(a, n);
  return *o ? 0 : ENOMEM;
}
}  // extern "C"

// ------------------------------------------------------------------ exceptions (libstdc++)
extern "C" void __cxa_end_catch() {
  static void (*real)() = reinterpret_cast<void (*)()>(dlsym(RTLD_NEXT, "__cxa_end_catch"));
  if (hook::on()) hook::exception_ref();
  real();
}
extern "C" void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void* self) {
  static void (*real)(void*) = reinterpret_cast<void (*)(void*)>(dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"));
  if (hook::on()) hook::exception_ref();
  real(self);
}

// ------------------------------------------------------------------ futures (libstdc++)
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns) {
  if (!hook::on()) return true;
  return hook::futex_wait(a, v, has, s.count() + 1e-9 * ns.count());
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns) {
  if (!hook::on()) return true;
  return hook::futex_wait(a, v, has, s.count() + 1e-9 * ns.count());
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) {
  if (hook::on()) hook::futex_wake(a);
}
}  // namespace std

// ------------------------------------------------------------------ compiler instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                          \
  void __tsan_read##N(void* p) { hook::acc(p, N, false); }             \
  void __tsan_write##N(void* p) { hook::acc(p, N, true); }             \
  void __tsan_unaligned_read##N(void* p) { hook::acc(p, N, false); }   \
  void __tsan_unaligned_write##N(void* p) { hook::acc(p, N, true); }   \
  void __tsan_volatile_read##N(void* p) { hook::acc(p, N, false); }    \
  void __tsan_volatile_write##N(void* p) { hook::acc(p, N, true); }    \
  void __tsan_unaligned_volatile_read##N(void* p) { hook::acc(p, N, false); } \
  void __tsan_unaligned_volatile_write##N(void* p) { hook::acc(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { hook::acc(p, n, false); }
void __tsan_write_range(void* p, size_t n) { hook::acc(p, n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) hook::acc(p, 8, true); }
void __tsan_vptr_read(void** p) { hook::acc(p, 8, false); }

#define ATOMIC(BITS, T)                                                                      \
  T __tsan_atomic##BITS##_load(const volatile T* a, int mo) {                                \
    if (!hook::on()) return *a;                                                              \
    hook::pre((void*)a);                                                                     \
    T v = *a;                                                                                \
    hook::did_load((void*)a, sizeof(T), mo);                                                 \
    return v;                                                                                \
  }                                                                                          \
  void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) {                             \
    if (!hook::on()) { *a = v; return; }                                                     \
    hook::pre((void*)a);                                                                     \
    bool ch = *a != v;                                                                       \
    *a = v;                                                                                  \
    hook::did_store((void*)a, sizeof(T), mo, ch);                                            \
  }                                                                                          \
  T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) {                             \
    if (!hook::on()) { T o = *a; *a = v; return o; }                                         \
    hook::pre((void*)a);                                                                     \
    T o = *a;                                                                                \
    *a = v;                                                                                  \
    hook::did_rmw((void*)a, sizeof(T), mo, o != v);                                          \
    return o;                                                                                \
  }                                                                                          \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    if (!hook::on()) { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }              \
    hook::pre((void*)a);                                                                     \
    if (*a == *c) {                                                                          \
      T o = *a;                                                                              \
      *a = v;                                                                                \
      hook::did_rmw((void*)a, sizeof(T), mo, o != v);                                        \
      return 1;                                                                              \
    }                                                                                        \
    *c = *a;                                                                                 \
    hook::did_load((void*)a, sizeof(T), fmo);                                                \
    return 0;                                                                                \
  }                                                                                          \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { \
    return __tsan_atomic##BITS##_compare_exchange_strong(a, c, v, mo, fmo);                  \
  }                                                                                          \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {   \
    __tsan_atomic##BITS##_compare_exchange_strong(a, &c, v, mo, fmo);                        \
    return c;                                                                                \
  }
#define FETCH(BITS, T, NAME, EXPR)                                                           \
  T __tsan_atomic##BITS##_fetch_##NAME(volatile T* a, T v, int mo) {                         \
    if (hook::on()) hook::pre((void*)a);                                                     \
    T o = *a;                                                                                \
    T nv = (T)(EXPR);                                                                        \
    *a = nv;                                                                                 \
    if (hook::on()) hook::did_rmw((void*)a, sizeof(T), mo, o != nv);                         \
    return o;                                                                                \
  }
#define ALL(BITS, T)                                                                         \
  ATOMIC(BITS, T) FETCH(BITS, T, add, o + v) FETCH(BITS, T, sub, o - v) FETCH(BITS, T, and, o & v) \
  FETCH(BITS, T, or, o | v) FETCH(BITS, T, xor, o ^ v) FETCH(BITS, T, nand, ~(o & v))
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (hook::on()) hook::fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}
