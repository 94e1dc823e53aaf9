// Stand-in for tbb::task_group: every task is a (simulated) thread.
#pragma once
#include <functional>
#include <thread>
#include <vector>
namespace tbb {
class task_group {
  std::vector<std::thread> ts_;

 public:
  template <class F> void run(F&& f) { ts_.emplace_back(std::function<void()>(std::forward<F>(f))); }
  int wait() {
    for (auto& t : ts_) t.join();
    ts_.clear();
    return 1;
  }
  template <class F> int run_and_wait(F&& f) {
    run(std::forward<F>(f));
    return wait();
  }
  ~task_group() { wait(); }
};
}  // namespace tbb
