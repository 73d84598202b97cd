// C20: every queued operation runs exactly once, bounded and by priority.
#include "sched.hpp"
#include <algorithm>
#include <memory>
#include <pwned-lib/operation.hpp>
#include <pwned-lib/operationqueue.hpp>
#include <thread>

namespace {
struct Op
{
  long long priority = 0; int steps = 0; bool throws = false, added = false, gated = false;
  int started = 0, ended = 0, deleted = 0; bool released = false;
};
struct World
{
  std::vector<Op> ops; int running = 0, maxRunning = 0; std::vector<int> order; bool returned = false;
};
World *W = nullptr;

class TestOp : public pwned::Operation
{
public:
  size_t k; uint64_t alive = 0xA11CEA11CEULL;
  explicit TestOp(size_t k) : k(k) { priority = W->ops[k].priority; W->ops[k].added = true; }
  ~TestOp() override
  {
    sched::Quiet quiet;
    if (alive != 0xA11CEA11CEULL) sched::die("operation " + std::to_string(k) + " is deleted twice");
    alive = 0;
    Op &o = W->ops[k];
    ++o.deleted;
    if (o.started != o.ended) sched::die("operation " + std::to_string(k) + " is deleted while it runs");
  }
  void execute() override
  {
    Op &o = W->ops[k];
    {
      sched::Quiet quiet;
      if (alive != 0xA11CEA11CEULL || o.deleted) sched::die("a deleted operation is run");
      ++o.started; ++W->running; W->maxRunning = std::max(W->maxRunning, W->running); W->order.push_back(int(k));
    }
    if (o.gated) sched::waitUntil([&o] { return o.released; }, "operation is released");
    for (int i = 0; i < o.steps; ++i) sched::yield();
    { sched::Quiet quiet; --W->running; ++o.ended; }
    if (o.throws) throw pwned::OperationException("planned failure", 1);
  }
};
typedef pwned::OperationQueue<TestOp> Queue;

void finalChecks(const std::vector<size_t> &batch)
{
  for (size_t k : batch)
  {
    const Op &o = W->ops[k];
    if (o.started != 1 || o.ended != 1) sched::die("operation " + std::to_string(k) + " was run " + std::to_string(o.started) + " times");
    if (o.deleted != 1) sched::die("operation " + std::to_string(k) + " was deleted " + std::to_string(o.deleted) + " times");
  }
}
int slots = 0;
void checkBound()
{
  if (W->maxRunning > slots) sched::die(std::to_string(W->maxRunning) + " operations ran at the same time, " + std::to_string(slots) + " are allowed");
}

void gated(pbt::Gen &g, pbt::Ctx &c, Queue &q, size_t first, size_t n, bool dynamic, bool viaExecute)
{
  std::vector<size_t> batch; size_t nextNew = first;
  const size_t initial = dynamic ? std::max<size_t>(1, n / 2 + 1) : n;
  for (; nextNew < first + initial; ++nextNew) { q.add(new TestOp(nextNew)); batch.push_back(nextNew); }
  W->returned = false;
  std::thread waiter([&] { q.execute(viaExecute); q.waitForFinished(); W->returned = true; });
  size_t ended = 0;
  for (;;)
  {
    sched::quiesce();
    std::vector<size_t> running, waiting;
    for (size_t k : batch)
    {
      const Op &o = W->ops[k];
      if (o.started > o.ended) running.push_back(k);
      else if (!o.started) waiting.push_back(k);
    }
    checkBound();
    if (running.empty() && waiting.empty()) break;
    if (W->returned) sched::die("waiting for the queue ended with " + std::to_string(running.size()) + " operations running and " + std::to_string(waiting.size()) + " waiting");
    if (running.empty()) sched::die(std::to_string(waiting.size()) + " operations are never started");
    const bool busy = int(running.size()) == slots;
    if (!busy && !waiting.empty()) sched::die(std::to_string(waiting.size()) + " operations wait although only " + std::to_string(running.size()) + " of " + std::to_string(slots) + " slots are taken");
    if (busy && !waiting.empty()) c.nontrivial = true;
    if (busy && !waiting.empty() && nextNew < first + n && g.chance(2, 3))
    {                                       // more work arrives while the others wait
      q.add(new TestOp(nextNew)); batch.push_back(nextNew); waiting.push_back(nextNew); ++nextNew; c.label("added while busy");
      if (g.chance(1, 2)) continue;
    }
    const size_t before = W->order.size();
    W->ops[running[g.below(running.size())]].released = true;
    sched::quiesce();
    ++ended;
    if (busy && !waiting.empty())
    {
      long long best = W->ops[waiting[0]].priority;
      for (size_t k : waiting) best = std::max(best, W->ops[k].priority);
      for (size_t j = before; j < W->order.size(); ++j)
      {
        // each of the newly started must be among the most urgent of those that waited
        long long top = W->ops[waiting[0]].priority; for (size_t k : waiting) top = std::max(top, W->ops[k].priority);
        const size_t s = size_t(W->order[j]);
        if (W->ops[s].priority != top)
          sched::die("operation " + std::to_string(s) + " with priority " + std::to_string(W->ops[s].priority) + " is started while one with priority " + std::to_string(top) + " waits");
        waiting.erase(std::find(waiting.begin(), waiting.end(), s));
        if (waiting.empty()) break;
      }
    }
  }
  waiter.join();
  if (!W->returned) sched::die("waiting for the queue does not end");
  finalChecks(batch);
  checkBound();
}
void freely(pbt::Gen &g, pbt::Ctx &c, Queue &q, size_t first, size_t n, bool viaExecute)
{
  std::vector<size_t> batch;
  for (size_t k = first; k < first + n; ++k) { q.add(new TestOp(k)); batch.push_back(k); }
  W->returned = false;
  q.execute(viaExecute);
  if (!viaExecute && g.chance(1, 2)) q.waitForScheduled();
  q.waitForFinished();
  W->returned = true;
  if (W->running) sched::die("waiting for the queue ended while operations run");
  finalChecks(batch);
  checkBound();
  if (int(n) > slots) c.nontrivial = true;
}

void run(pbt::Gen &g, pbt::Ctx &c)
{
  World world; W = &world;
  const size_t batches = g.range(1, 3);
  const int given = g.chance(1, 2) ? 0 : int(g.range(1, 4));     // how many may run at once, if it is not left to the hardware
  slots = given ? given : int(std::thread::hardware_concurrency());
  std::vector<size_t> sizes; std::vector<int> modes;
  std::ostringstream d;
  if (given) { d << given << " at once: "; c.label(given == 1 ? "one at a time" : "limit given"); }
  for (size_t b = 0; b < batches; ++b)
  {
    const size_t n = g.chance(1, 12) ? 0 : g.range(1, g.chance(1, 6) ? 24 : 9);
    const int mode = int(g.below(6));       // 0,1: gated, 2: gated with later additions, 3..5: free
    sizes.push_back(n); modes.push_back(mode);
    d << (b ? "; " : "") << (mode <= 2 ? "gated" : "free") << (mode == 2 ? " with later additions" : "") << ":";
    const uint64_t span = g.pick(std::vector<uint64_t>{2, 3, 10, 1000000});
    for (size_t k = 0; k < n; ++k)
    {
      Op o; o.gated = mode <= 2; o.steps = int(g.below(6)); o.throws = g.chance(1, 8);
      o.priority = (long long)(g.below(span)) * (g.chance(1, 10) ? 3000000000LL : 1); if (g.chance(1, 12)) o.priority = -o.priority;
      world.ops.push_back(o);
      d << " " << o.priority << (o.throws ? "!" : "");
    }
  }
  std::string text = d.str();
  pbt::Describe description(c, [&] { return text; });
  sched::begin(g, [&] { return text; });
  {
    std::unique_ptr<Queue> queue;
    if (given) queue.reset(new Queue(0, unsigned(given))); else queue.reset(new Queue);
    Queue &q = *queue;
    size_t first = 0;
    for (size_t b = 0; b < batches; ++b)
    {
      const bool via = g.chance(1, 2);
      if (modes[b] <= 2 && sizes[b]) { gated(g, c, q, first, sizes[b], modes[b] == 2, via); c.label("gated"); }
      else { freely(g, c, q, first, sizes[b], via); c.label("free"); }
      // additions that were not made because nothing waited any more
      first += sizes[b];
    }
    if (batches > 1) c.label("queue used again");
  }
  sched::end();
}
} // namespace

const pbt::Target pbt::target = {"C20",
  "case = 1..3 batches of 0..24 operations with random priorities (ties, negative, beyond 32 bits), durations and operation errors on one queue, whose limit is that of the hardware or 1..4, every thread switch decided by the tape; gated batches hold the running operations and release them one by one; non-trivial = operations had to wait for a slot",
  run, 60000, 1500000, 60};
