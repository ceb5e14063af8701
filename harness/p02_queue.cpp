// check: P02 variant=sched sources=assert.cpp
// The task queue is a linearizable FIFO queue.
#include <deque>
#include <memory>
#include <thread>
#include <vector>

#include "altro/common/threadsafe_queue.hpp"
#include "sched.hpp"

namespace {

// A move-only element whose payload must survive the journey.
struct Item {
  std::unique_ptr<int> v;
  Item() = default;
  explicit Item(int x) : v(std::make_unique<int>(x)) {}
  Item(Item&&) = default;
  Item& operator=(Item&&) = default;
  int get() const { return v ? *v : -1; }
};
using Queue = altro::ThreadSafeQueue<Item>;

enum Op { kPush, kPop, kEmpty, kSize };

// --- linearizability of push/pop/empty by brute force; size is checked against interval bounds
bool linearize(const std::vector<sched::Ev>& e, std::vector<char>& done, std::deque<long>& q, size_t left) {
  if (left == 0) return true;
  long min_ret = 1l << 60;
  for (size_t i = 0; i < e.size(); ++i)
    if (!done[i] && e[i].op != kSize && e[i].ret < min_ret) min_ret = e[i].ret;
  for (size_t i = 0; i < e.size(); ++i) {
    if (done[i] || e[i].op == kSize || e[i].call > min_ret) continue;
    done[i] = 1;
    if (e[i].op == kPush) {
      q.push_back(e[i].arg);
      if (linearize(e, done, q, left - 1)) return true;
      q.pop_back();
    } else if (e[i].op == kPop) {
      if (e[i].res < 0) {
        if (q.empty() && linearize(e, done, q, left - 1)) return true;
      } else if (!q.empty() && q.front() == e[i].res) {
        q.pop_front();
        if (linearize(e, done, q, left - 1)) return true;
        q.push_front(e[i].res);
      }
    } else if (static_cast<long>(q.empty()) == e[i].res) {
      if (linearize(e, done, q, left - 1)) return true;
    }
    done[i] = 0;
  }
  return false;
}

std::string show(const std::vector<sched::Ev>& e) {
  static const char* N[] = {"push", "pop", "empty", "size"};
  std::string s;
  for (auto& x : e) s += mc::str(" T", x.thread, ".", N[x.op], "(", x.arg, ")=", x.res, "@[", x.call, ",", x.ret, "]");
  return s;
}

void run_op(Queue& q, int op, int value) {
  int id = sched::ev_call(op, value);
  switch (op) {
    case kPush: q.Push(Item(value)); sched::ev_ret(id, 0); break;
    case kPop: {
      Item it;
      bool ok = q.TryPop(it);
      sched::ev_ret(id, ok ? it.get() : -1);
      if (ok) sched::check(it.get() >= 0, "empty-element", "TryPop succeeded but delivered no element");
      break;
    }
    case kEmpty: sched::ev_ret(id, q.IsEmpty()); break;
    case kSize: sched::ev_ret(id, static_cast<long>(q.Size())); break;
  }
}

struct Cfg {
  std::vector<int> lens;      // operations per extra thread
  std::vector<int> ops;       // alphabet
  int init_max, preempt;
};

void concurrent(mc::Run& r, const Cfg& c) {
  int init = r.choose(c.init_max + 1, "initial");
  std::vector<std::vector<int>> prog;
  int nops = 0;
  for (size_t t = 0; t < c.lens.size(); ++t) {
    prog.emplace_back();
    for (int k = 0; k < c.lens[t]; ++k) {
      prog[t].push_back(c.ops[r.choose(static_cast<int>(c.ops.size()), "op")]);
      ++nops;
    }
    // symmetry: threads with equal lengths run the same code, so only sorted programs are distinct
    if (t > 0 && c.lens[t] == c.lens[t - 1] && prog[t] < prog[t - 1]) return;
  }
  sched::Options o;
  o.preemptions = c.preempt;
  sched::run(r, o, [&]() {
    Queue q;
    for (int i = 0; i < init; ++i) run_op(q, kPush, i);
    {
      std::vector<std::thread> th;
      for (size_t t = 1; t < prog.size(); ++t)
        th.emplace_back([&, t]() {
          for (size_t k = 0; k < prog[t].size(); ++k) run_op(q, prog[t][k], static_cast<int>(100 * t + k));
        });
      for (size_t k = 0; k < prog[0].size(); ++k) run_op(q, prog[0][k], static_cast<int>(50 + k));
      for (auto& t : th) t.join();
    }
    // quiescent: size and emptiness are exact, and draining gives the rest in order
    long pushes = 0, pops = 0;
    for (auto& e : sched::events()) {
      pushes += e.op == kPush;
      pops += e.op == kPop && e.res >= 0;
    }
    sched::check(static_cast<long>(q.Size()) == pushes - pops, "size-at-rest",
                 mc::str("size is ", q.Size(), " after ", pushes, " pushes and ", pops, " pops:", show(sched::events())));
    sched::check(q.IsEmpty() == (pushes == pops), "empty-at-rest", "emptiness wrong at rest" + show(sched::events()));
    for (long i = pops; i <= pushes; ++i) run_op(q, kPop, 0);
    sched::check(q.Size() == 0 && q.IsEmpty(), "drained-not-empty", "queue not empty after draining");
    std::vector<sched::Ev> e = sched::events();
    uint64_t h = 3;
    for (auto& x : e) {
      if (x.op == kSize) {
        long lo = 0, hi = 0;   // completed before the query began / started before it returned
        for (auto& y : e) {
          if (y.op == kPush) {
            lo += y.ret >= 0 && y.ret < x.call;
            hi += y.call < x.ret;
          } else if (y.op == kPop && y.res >= 0) {
            lo -= y.call < x.ret;
            hi -= y.ret < x.call;
          }
        }
        sched::check(x.res >= lo && x.res <= hi && x.res >= 0, "size-bounds",
                     mc::str("size returned ", x.res, ", possible range [", lo, ",", hi, "]:", show(e)));
      }
      h = mc::mix(h, x.res + 7);
    }
    std::vector<char> done(e.size(), 0);
    std::deque<long> model;
    size_t left = 0;
    for (auto& x : e) left += x.op != kSize;
    sched::check(linearize(e, done, model, left), "not-linearizable", "no sequential FIFO order explains:" + show(e));
    r.outcome(h);
  });
}

// --- single-threaded histories with clear and move, against std::deque
void sequential(mc::Run& r, int depth) {
  sched::Options o;
  o.preemptions = 0;
  sched::run(r, o, [&]() {
    auto q = std::make_unique<Queue>();
    std::deque<int> m;
    int next = 0;
    for (int d = 0; d < depth; ++d) {
      int op = r.choose(7, "seq-op");
      r.transition();
      switch (op) {
        case 0: q->Push(Item(next)); m.push_back(next); ++next; break;
        case 1: {
          Item it;
          bool ok = q->TryPop(it);
          sched::check(ok == !m.empty(), "pop-result", mc::str("TryPop returned ", ok, " with ", m.size(), " elements"));
          if (ok) {
            sched::check(it.get() == m.front(), "pop-order", mc::str("popped ", it.get(), " instead of ", m.front()));
            m.pop_front();
          }
          break;
        }
        case 2: q->Clear(); m.clear(); break;
        case 3: { auto p = std::make_unique<Queue>(std::move(*q)); q = std::move(p); break; }
        case 4: { auto p = std::make_unique<Queue>(); *p = std::move(*q); q = std::move(p); break; }
        case 5: {  // assign onto a queue that has contents of its own: those are dropped
          auto p = std::make_unique<Queue>();
          p->Push(Item(900));
          p->Push(Item(901));
          *p = std::move(*q);
          q = std::move(p);
          break;
        }
        case 6: {  // swap through a temporary: assigns to a moved-from queue
          Queue other;
          other.Push(Item(next));
          std::swap(*q, other);
          int k = 0;
          Item it;
          while (other.TryPop(it)) {
            sched::check(k < static_cast<int>(m.size()) && it.get() == m[k], "swap-contents", "contents changed by swap");
            ++k;
          }
          sched::check(k == static_cast<int>(m.size()), "swap-contents", "elements lost by swap");
          m.assign(1, next);
          ++next;
          break;
        }
      }
      sched::check(q->Size() == m.size(), "size-at-rest", mc::str("size ", q->Size(), " instead of ", m.size()));
      sched::check(q->IsEmpty() == m.empty(), "empty-at-rest", "emptiness wrong");
      sched::mix_history(m.size());
      uint64_t h = 11;
      for (int v : m) h = mc::mix(h, v - m.front());
      r.state(mc::mix(h, op));
    }
    r.outcome(m.size());
  });
}

// --- queues of any length can be destroyed, cleared and assigned to
void long_queue(mc::Run& r) {
  int n = r.pick({0, 1, 2, 3, 1000, 100000}, "length");
  int how = r.choose(4, "end");
  r.transition(n);
  r.state(n * 4 + how);
  sched::Options o;
  o.preemptions = 0;
  o.step_limit = 10000000;
  sched::run(r, o, [&]() {
    altro::ThreadSafeQueue<int> q;
    for (int i = 0; i < n; ++i) q.Push(i);
    sched::check(q.Size() == static_cast<size_t>(n), "size-at-rest", "size of a long queue is wrong");
    if (how == 1) q.Clear();
    if (how == 2) q = altro::ThreadSafeQueue<int>();
    if (how == 3) {
      int v = -1;
      for (int i = 0; i < n; ++i) sched::check(q.TryPop(v) && v == i, "pop-order", "long queue out of order");
    }
    sched::check(how == 0 || (q.Size() == 0 && q.IsEmpty()), "not-cleared", "queue not empty after it was emptied");
    r.outcome(q.Size());
  });
}

void add(mc::Spec& s, const std::string& name, const Cfg& c) {
  mc::Scenario sc;
  sc.name = name;
  sc.bound = mc::str(c.lens.size(), " threads, all programs over ", c.ops.size(), " operations, lengths ", c.lens[0], "..., initial size 0..",
                     c.init_max, ", at most ", c.preempt, " preemptions");
  sc.body = [c](mc::Run& r) { concurrent(r, c); };
  sc.warmup = true;
  s.scenarios.push_back(sc);
}

}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P02";
  s.unit = "one execution = one operation program and one complete schedule of the real queue; state = distinct happens-before state (concurrent) or queue content (sequential); trace = execution whose history was explained by a sequential FIFO";
  s.assumptions = {"sequentially consistent interleavings; weaker orderings only through the happens-before race check",
                   "thread symmetry: programs of threads with equal length are explored once up to order"};
  bool q = !mc::thorough();
  const std::vector<int> all = {kPush, kPop, kEmpty, kSize}, pp = {kPush, kPop}, pps = {kPush, kPop, kSize};
  add(s, "two-threads-2x2", {{2, 2}, all, 2, q ? 3 : 6});
  add(s, "two-threads-3x2", {{3, 2}, pps, 1, q ? 2 : 4});
  add(s, "three-threads-1x1x1", {{1, 1, 1}, all, 2, q ? 3 : 5});
  add(s, "three-threads-2x1x1", {{2, 1, 1}, all, 1, q ? 2 : 3});
  add(s, "three-threads-2x2x2", {{2, 2, 2}, pp, 1, 2});
  add(s, "four-threads-1x1x1x1", {{1, 1, 1, 1}, pps, 2, q ? 2 : 3});
  mc::Scenario seq;
  seq.name = "sequential";
  int depth = q ? 6 : 8;
  seq.bound = mc::str("all histories of ", depth, " operations (push, pop, clear, move construct, move assign onto empty/non-empty, swap)");
  seq.body = [depth](mc::Run& r) { sequential(r, depth); };
  s.scenarios.insert(s.scenarios.begin(), seq);
  mc::Scenario lq;
  lq.name = "long-queue";
  lq.bound = "lengths 0,1,2,3,1000,100000 x {destroy, clear, assign, drain}";
  lq.body = long_queue;
  s.scenarios.push_back(lq);
  return mc::main_driver(argc, argv, s);
}
