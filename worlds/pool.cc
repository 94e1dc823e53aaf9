// World "pool": task pool (C06) and conditional lock (C07).
#include <atomic>
#include <deque>
#include <future>
#include <memory>
#include <stdexcept>
#include <thread>
#include "common/mutex.h"
#include "common/simple_thread_pool.h"
#include "sim.h"
const char* const kWorldName = "pool";
using static_map::common::Mutex;
using static_map::common::MutexLocker;
using static_map::common::ThreadPool;

namespace {

struct TaskError : std::runtime_error {
  int id;
  explicit TaskError(int i) : std::runtime_error("task"), id(i) {}
};

struct Ctx {
  std::vector<int> runs, accepted;
  std::vector<int> active;  // tasks running now
};

void run_pool(const sim::Spec& spec) {
  auto& w = sim::workload();
  const std::string P = "C06";
  const int rounds = w.range(1, 2);
  for (int round = 0; round < rounds; round++) {
    const int workers = w.chance(0.3) ? 1 : w.range(1, 6);
    const int submitters = w.range(1, 4);
    const int per = w.chance(0.04) ? w.range(40, 400) : w.range(0, 8);
    const bool nested = w.chance(0.4);
    const bool sleeping = w.chance(0.5);
    const bool throwing = w.chance(0.4);
    const bool hold_futures = w.chance(0.7);
    // what the plan of each task is, fixed beforehand
    const int kMax = submitters * per * 2 + 2;
    struct Plan {
      int sleep_us;
      bool thrown;
      bool nest;
    };
    std::vector<Plan> plan(kMax);
    for (auto& p : plan) p = {sleeping && w.chance(0.4) ? w.range(1, 20000) : 0, throwing && w.chance(0.3), nested && w.chance(0.5)};
    std::vector<int> gap(kMax);
    for (auto& g : gap) g = sleeping && w.chance(0.3) ? w.range(1, 20000) : 0;

    std::vector<int> runs(kMax, 0), accepted(kMax, 0), finished(kMax, 0);
    std::vector<std::future<int>> futures(kMax);
    int running = 0, peak = 0;
    int in_nested_submit = 0;
    const bool wait_before = w.chance(0.4);
    sim::event("pool workers=%d submitters=%d per=%d", workers, submitters, per);
    {
      std::unique_ptr<ThreadPool> ppool;
      std::function<int(int)> body = [&](int id) -> int {
        {
          sim::Atomic a;
          runs[id]++;
          running++;
          if (running > peak) peak = running;
          sim::event("run %d", id);
          if (runs[id] > 1) sim::violation(P, "ran-twice", "task %d ran %d times", id, runs[id]);
          if (running > workers) sim::violation(P, "too-many-running", "%d tasks run at once on %d workers", running, workers);
        }
        if (plan[id].sleep_us) std::this_thread::sleep_for(std::chrono::microseconds(plan[id].sleep_us));
        if (plan[id].nest && id < submitters * per) {
          int nid = submitters * per + id;
          try {
            futures[nid] = ppool->enqueue([&body, nid] { return body(nid); });
            sim::Atomic a;
            accepted[nid] = 1;
            sim::probe("nested_submit");
          } catch (const std::runtime_error&) {
            // the pool is already being destroyed: a refusal is legal
            sim::probe("refused_submit");
          }
        }
        sim::Atomic a;
        running--;
        finished[id]++;
        if (plan[id].thrown) throw TaskError(id);
        return id * 7 + 1;
      };
      ppool.reset(new ThreadPool(workers));
      std::vector<std::thread> subs;
      for (int s = 0; s < submitters; s++)
        subs.emplace_back([&, s] {
          for (int k = 0; k < per; k++) {
            int id = s * per + k;
            if (gap[id]) std::this_thread::sleep_for(std::chrono::microseconds(gap[id]));
            auto f = ppool->enqueue([&body](int i) { return body(i); }, id);
            {
              sim::Atomic a;
              accepted[id] = 1;
            }
            if (hold_futures) futures[id] = std::move(f);
          }
        });
      for (auto& t : subs) t.join();
      if (wait_before && hold_futures)
        for (int i = 0; i < submitters * per; i++)
          if (futures[i].valid()) futures[i].wait();
      sim::event("destroy");
      sim::state(sim::hash64(sim::hash64(running, workers), submitters * 100 + per));
      delete ppool.get();
      ppool.release();
    }
    sim::event("destroyed");
    (void)in_nested_submit;
    for (int i = 0; i < kMax; i++) {
      if (runs[i] != accepted[i])
        sim::violation(P, "not-exactly-once", "task %d accepted=%d but ran %d times when the pool was destroyed", i, accepted[i], runs[i]);
      if (finished[i] != runs[i]) sim::violation(P, "unfinished", "task %d was started but not completed when the pool was destroyed", i);
      if (futures[i].valid()) {
        if (futures[i].wait_for(std::chrono::seconds(0)) != std::future_status::ready)
          sim::violation(P, "future-not-ready", "task %d completed but its handle is not ready", i);
        try {
          int v = futures[i].get();
          if (plan[i].thrown) sim::violation(P, "exception-lost", "task %d threw but its handle holds a value", i);
          if (v != i * 7 + 1) sim::violation(P, "wrong-result", "task %d: wrong result %d", i, v);
        } catch (const TaskError& e) {
          if (!plan[i].thrown || e.id != i) sim::violation(P, "wrong-exception", "task %d: wrong exception", i);
        } catch (const std::future_error& e) {
          sim::violation(P, "broken-promise", "task %d: no result and no exception reached the handle", i);
        }
      }
    }
    if (peak > 1) sim::probe("tasks_overlap");
  }
  if (sim::live_threads() != 1) sim::violation(P, "threads-left", "%d threads alive after the pool was destroyed", sim::live_threads());
}

// Tasks that wait for one another: k workers must run k tasks at once.
void run_rendezvous(const sim::Spec& spec) {
  auto& w = sim::workload();
  const std::string P = "C06";
  const int workers = w.range(2, 5);
  const int k = w.range(2, workers);
  const bool warm = w.chance(0.5);  // let the workers go to sleep first
  const bool two_submitters = w.chance(0.5);
  int arrived = 0;
  bool held = false;
  ThreadPool pool(workers);
  if (warm) std::this_thread::sleep_for(std::chrono::milliseconds(w.range(1, 20)));
  std::vector<std::future<int>> fs(k);
  auto body = [&](int i) {
    {
      sim::Atomic a;
      arrived++;
      sim::event("arrive %d", i);
    }
    while (arrived < k) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    return i + 3;
  };
  auto submit = [&](int from, int to) {
    for (int i = from; i < to; i++) fs[i] = pool.enqueue(body, i);
  };
  if (two_submitters) {
    std::thread t([&] { submit(0, k / 2); });
    submit(k / 2, k);
    t.join();
  } else {
    submit(0, k);
  }
  for (int i = 0; i < k; i++) {
    if (fs[i].wait_for(std::chrono::seconds(120)) != std::future_status::ready)
      sim::violation(P, "lost-wakeup", "%d tasks on %d idle workers, but only %d of them are started", k, workers, arrived);
    if (fs[i].get() != i + 3) sim::violation(P, "wrong-result", "task %d: wrong result", i);
  }
  (void)held;
  sim::probe("rendezvous");
}

void run_mutex(const sim::Spec& spec) {
  auto& w = sim::workload();
  const std::string P = "C07";
  Mutex mu;
  int inside = 0;
  int64_t counter = 0;
  // several named tokens; waiters wait for tokens that producers hand out
  const int producers = w.range(1, 3), consumers = w.range(1, 4);
  const int per = w.range(1, 8);
  const int total = producers * per;
  std::deque<int> queue;
  const size_t cap = w.chance(0.5) ? (size_t)w.range(1, 3) : 1000;
  std::vector<int> got(total, 0);
  int consumed = 0;
  bool done = false;
  const bool sleeps = w.chance(0.5);
  std::vector<int> gaps(total + 64);
  for (auto& g : gaps) g = sleeps && w.chance(0.4) ? w.range(1, 3000) : 0;
  auto enter = [&](const char* who) {
    sim::Atomic a;
    if (++inside != 1) sim::violation(P, "not-exclusive", "%d threads inside the guarded section (%s)", inside, who);
  };
  auto leave = [&] {
    sim::Atomic a;
    --inside;
  };
  auto work = [&] {  // unprotected read-modify-write, safe only under the lock
    int64_t c = counter;
    sim::yield_point();
    counter = c + 1;
  };
  int64_t expected = 0;
  std::vector<std::thread> ts;
  for (int p = 0; p < producers; p++)
    ts.emplace_back([&, p] {
      for (int k = 0; k < per; k++) {
        int id = p * per + k;
        if (gaps[id]) std::this_thread::sleep_for(std::chrono::microseconds(gaps[id]));
        MutexLocker l(&mu);
        l.Await([&] { return queue.size() < cap; });
        enter("producer");
        if (!(queue.size() < cap)) sim::violation(P, "await-false", "producer continued although its condition is false");
        queue.push_back(id);
        work();
        {
          sim::Atomic a;
          expected++;
        }
        sim::event("put %d", id);
        leave();
      }
    });
  for (int c = 0; c < consumers; c++)
    ts.emplace_back([&, c] {
      for (;;) {
        MutexLocker l(&mu);
        {
          sim::Atomic a;
          if (queue.empty()) sim::probe("consumer_waits");
        }
        l.Await([&] { return !queue.empty() || done; });
        enter("consumer");
        if (queue.empty() && !done) sim::violation(P, "await-false", "consumer continued although its condition is false");
        work();
        {
          sim::Atomic a;
          expected++;
        }
        if (queue.empty()) {
          leave();
          return;
        }
        int id = queue.front();
        queue.pop_front();
        if (got[id]++) sim::violation(P, "duplicate", "item %d taken twice", id);
        if (++consumed == total) done = true;
        sim::event("got %d by %d", id, c);
        sim::state(sim::hash64(queue.size() * 16 + consumed, c));
        leave();
      }
    });
  // bystander that only locks (its unlock also notifies)
  if (w.chance(0.4))
    ts.emplace_back([&] {
      for (int k = 0; k < 3; k++) {
        MutexLocker l(&mu);
        enter("bystander");
        work();
        {
          sim::Atomic a;
          expected++;
        }
        leave();
      }
    });
  // a waiter released by the main thread only
  bool go = false;
  bool released = false;
  ts.emplace_back([&] {
    MutexLocker l(&mu);
    l.Await([&] { return go; });
    enter("gate");
    if (!go) sim::violation(P, "await-false", "gate waiter continued although its condition is false");
    released = true;
    leave();
  });
  if (w.chance(0.7)) std::this_thread::sleep_for(std::chrono::microseconds(w.range(1, 50000)));
  {
    MutexLocker l(&mu);
    enter("main");
    go = true;
    leave();
  }
  for (auto& t : ts) t.join();
  if (!released) sim::violation(P, "lost-wakeup", "gate waiter was not released");
  if (consumed != total) sim::violation(P, "lost", "consumed %d of %d", consumed, total);
  if (counter != expected) sim::violation(P, "lost-update", "counter %ld, expected %ld", (long)counter, (long)expected);
}

}  // namespace

void world_run(const sim::Spec& spec) {
  sim::tuning.liveness_prop = spec.prop == "C07" ? "C07" : "C06";
  sim::tuning.max_time_s = 600;
  sim::start();
  if (spec.prop == "C07") run_mutex(spec);
  else if (sim::workload().chance(0.25)) run_rendezvous(spec);
  else run_pool(spec);
  sim::stop();
}
