// C21 (queue): pausing, resuming and cancelling never hang or lose work.
#include "sched.hpp"
#include <algorithm>
#include <pwned-lib/operation.hpp>
#include <pwned-lib/operationexception.hpp>
#include <pwned-lib/operationqueue.hpp>
#include <thread>

namespace {
struct Op { int failure = 0, steps = 0, done = 0, started = 0, ended = 0, deleted = 0; bool cutShort = false; };
struct World { std::vector<Op> ops; bool cancelReturned = false, pausedNow = false; };
World *W = nullptr;

class TestOp : public pwned::Operation
{
public:
  size_t k;
  explicit TestOp(size_t k) : k(k) { priority = (long long)(k % 3); }
  ~TestOp() override
  {
    sched::Quiet quiet;
    Op &o = W->ops[k];
    if (o.deleted++) sched::die("operation " + std::to_string(k) + " is deleted twice");
    if (o.started != o.ended) sched::die("operation " + std::to_string(k) + " is deleted while it runs");
  }
  void execute() override
  {
    Op &o = W->ops[k];
    {
      sched::Quiet quiet;
      if (o.deleted) sched::die("a deleted operation is run");
      if (o.started++) sched::die("operation " + std::to_string(k) + " is run twice");
      if (W->cancelReturned) sched::die("operation " + std::to_string(k) + " is started after the queue was cancelled");
    }
    while (o.done < o.steps)
    {
      if (isCancelled) { o.cutShort = true; break; }
      if (isPaused) { isPaused = false; queue->operationWait(); continue; }
      sched::Quiet quiet;
      ++o.done;
      if (W->cancelReturned) sched::die("operation " + std::to_string(k) + " goes on after the queue was cancelled");
      quiet.release();
      sched::yield();
    }
    sched::Quiet quiet;
    ++o.ended;
    if (o.failure == 1) { quiet.release(); throw pwned::OperationException("failed on purpose", 1); }
  }
};
typedef pwned::OperationQueue<TestOp> Queue;

void run(pbt::Gen &g, pbt::Ctx &c)
{
  World world; W = &world;
  size_t n = g.chance(1, 15) ? 0 : g.range(1, 7);
  std::ostringstream d; d << "operations with steps:";
  for (size_t k = 0; k < n; ++k) { Op o; o.steps = int(g.below(g.chance(1, 3) ? 40 : 8)); o.failure = g.chance(1, 6); world.ops.push_back(o); d << " " << o.steps << (o.failure ? " then failing" : ""); }
  // actions: p pause, r resume, c cancel, t what the key handlers do on "toggle", q what they do on "quit"
  std::string script; std::vector<int> gaps;
  const size_t m = g.range(1, 8);
  for (size_t i = 0; i < m; ++i) { script += "pprrttcq"[g.weighted({4, 1, 3, 1, 3, 1, 1, 1})]; gaps.push_back(int(g.below(g.chance(1, 3) ? 60 : 8))); }
  const bool early = g.chance(1, 6);        // actions may come before the queue is executed
  const bool again = g.chance(1, 2);        // a second round on the same queue
  d << "; actions " << script << (early ? ", from before the start" : "") << (again ? ", second round" : "");
  const std::string text = d.str();
  pbt::Describe description(c, [&] { return text; });
  sched::begin(g, [&] { return text; });
  {
    Queue q;
    for (size_t k = 0; k < n; ++k) q.add(new TestOp(k));
    bool cancelled = false, returned = false, executing = false; bool workLeft = false;
    std::thread waiter([&] { executing = true; q.execute(g.chance(1, 2)); q.waitForFinished(); returned = true; });
    if (!early) sched::waitUntil([&] { return executing; }, "the queue is executed");
    bool paused = false;
    for (size_t i = 0; i < m; ++i)
    {
      for (int k = 0; k < gaps[i]; ++k) sched::yield();
      char a = script[i];
      for (auto &o : world.ops) if (o.ended == 0) workLeft = true;
      if (workLeft && executing) { c.nontrivial = true; c.label(std::string(1, a)); }
      if (a == 't') a = q.isRunning() ? 'p' : 'r';
      switch (a)
      {
      case 'p':
      {
        const bool was = q.isRunning();
        q.pause();
        paused = true;
        // in a paused queue every operation stops within the step it is in, and stays so
        std::vector<int> done; for (auto &o : world.ops) done.push_back(o.done);
        if (was && !cancelled && executing && g.chance(1, 2))
        {
          const bool still = !q.isRunning();
          sched::quiesce();
          if (still && !q.isRunning() && !returned)
            for (size_t k = 0; k < n; ++k)
              if (world.ops[k].done > done[k] + 1) sched::die("operation " + std::to_string(k) + " went on for " + std::to_string(world.ops[k].done - done[k]) + " steps while the queue was paused");
        }
        break;
      }
      case 'r': q.resume(); paused = false; break;
      case 'q': q.resume();                 // fall through
      case 'c':
        q.cancel(); cancelled = true; world.cancelReturned = true;
        for (size_t k = 0; k < n; ++k) if (world.ops[k].started != world.ops[k].ended) sched::die("operation " + std::to_string(k) + " still runs after cancelling returned");
        break;
      }
    }
    if (!cancelled) q.resume();
    sched::waitUntil([&] { return returned; }, "waiting for the queue returns");
    waiter.join();
    // a pause that arrived before the start is not remembered by anyone; resuming once more is harmless
    for (size_t k = 0; k < n; ++k)
    {
      const Op &o = world.ops[k];
      if (o.deleted != 1) sched::die("operation " + std::to_string(k) + " was deleted " + std::to_string(o.deleted) + " times");
      if (!cancelled && (o.started != 1 || o.done != o.steps)) sched::die("operation " + std::to_string(k) + " did " + std::to_string(o.done) + " of " + std::to_string(o.steps) + " steps though nothing was cancelled");
    }
    if (cancelled != q.isCancelled()) sched::die("the queue does not know that it was cancelled");
    if (q.size()) sched::die("the queue still holds operations");
    if (again)
    {
      if (cancelled) q.reset();
      world.cancelReturned = false;
      const size_t first = world.ops.size(), extra = g.range(1, 5);
      for (size_t k = 0; k < extra; ++k) { Op o; o.steps = int(g.below(6)); world.ops.push_back(o); }
      for (size_t k = 0; k < extra; ++k) q.add(new TestOp(first + k));
      q.execute(true); q.waitForFinished();
      for (size_t k = first; k < world.ops.size(); ++k)
        if (world.ops[k].done != world.ops[k].steps || world.ops[k].started != 1 || world.ops[k].deleted != 1) sched::die("second round: operation " + std::to_string(k - first) + " did not run to its end");
      c.label(cancelled ? "used again after reset" : "used again");
    }
  }
  sched::end();
}
} // namespace

const pbt::Target pbt::target = {"C21",
  "case = up to 7 operations of 0..39 steps and up to 8 actions (pause, resume, toggle, cancel, quit) at moments and under thread switches decided by the tape, then possibly a second round; non-trivial = an action while work was left",
  run, 120000, 1500000, 60};
