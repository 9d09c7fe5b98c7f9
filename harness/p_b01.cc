// LIBS: fcp_base
// B01: every scheduled task runs exactly once, workers keep their order, and
// waiting for idleness means nothing is pending or running.
#include <atomic>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

#include "fcp/base/scheduler.h"
#include "pbt/pbt.h"

namespace {

// A generated program: a forest of tasks. Every task belongs to a lane (0 is
// the scheduler itself, others are workers), burns a little time and schedules
// its children, some of them from a helper thread it starts and joins.
struct Task {
  int lane = 0;
  int spin = 0;       // 0 none, 1 yield, 2 short spin, 3 sleep
  bool late = false;  // schedules its children at the end instead of the start
  std::vector<int> children;
};

struct Program {
  int lanes = 1;
  std::vector<Task> tasks;
  std::vector<int> roots;
};

Program GenProgram(pbt::Src& s, pbt::Case& c, int max_tasks) {
  Program p;
  p.lanes = 1 + s.small(0, 4);
  int n = s.small(1, max_tasks);
  for (int i = 0; i < n; ++i) {
    Task t;
    t.lane = s.range(0, p.lanes - 1);
    t.spin = s.weighted({6, 2, 2, 1});
    t.late = s.flip();
    bool root = i == 0 || s.chance(1, 2);
    p.tasks.push_back(t);
    if (root) {
      p.roots.push_back(i);
    } else {
      p.tasks[s.range(0, i - 1)].children.push_back(i);
    }
  }
  c.log << "lanes " << p.lanes << " roots " << p.roots.size() << "\n";
  for (int i = 0; i < n; ++i) {
    c.log << "task " << i << " lane " << p.tasks[i].lane << " spin "
          << p.tasks[i].spin << (p.tasks[i].late ? " late" : "");
    for (int k : p.tasks[i].children) c.log << " >" << k;
    c.log << "\n";
  }
  return p;
}

void Burn(int spin) {
  switch (spin) {
    case 0:
      return;
    case 1:
      std::this_thread::yield();
      return;
    case 2:
      for (volatile int i = 0; i < 2000; ++i) {
      }
      return;
    default:
      std::this_thread::sleep_for(std::chrono::microseconds(60));
  }
}

// Runs a program on a scheduler and watches it.
class Runner {
 public:
  Runner(const Program& p, fcp::Scheduler* sched) : p_(p), sched_(sched) {
    runs_ = std::vector<std::atomic<int>>(p.tasks.size());
    done_ = std::vector<std::atomic<int>>(p.tasks.size());
    for (auto& r : runs_) r = 0;
    for (auto& r : done_) r = 0;
    busy_ = std::vector<std::atomic<int>>(p.lanes);
    for (auto& b : busy_) b = 0;
    submitted_.resize(p.lanes);
    executed_.resize(p.lanes);
    locks_ = std::vector<std::mutex>(p.lanes);
    workers_.push_back(nullptr);
    for (int i = 1; i < p.lanes; ++i) workers_.push_back(sched->CreateWorker());
  }

  void Submit(int i) {
    int lane = p_.tasks[i].lane;
    if (lane == 0) {
      sched_->Schedule([this, i] { Run(i); });
      accepted_++;
      return;
    }
    // The submission order of a worker is well defined only if recording and
    // submitting are one step.
    std::lock_guard<std::mutex> lock(locks_[lane]);
    submitted_[lane].push_back(i);
    workers_[lane]->Schedule([this, i] { Run(i); });
    accepted_++;
  }

  void Run(int i) {
    const Task& t = p_.tasks[i];
    runs_[i]++;
    if (t.lane != 0) {
      if (busy_[t.lane]++ != 0) overlap_ = true;
      executed_[t.lane].push_back(i);
    }
    if (!t.late) Children(t);
    Burn(t.spin);
    if (t.late) Children(t);
    if (t.lane != 0) busy_[t.lane]--;
    done_[i]++;
    finished_++;
  }

  void Children(const Task& t) {
    for (int k : t.children) Submit(k);
  }

  int finished() const { return finished_; }
  int accepted() const { return accepted_; }
  void DropWorkers() { workers_.clear(); }

  void CheckAll() {
    for (size_t i = 0; i < p_.tasks.size(); ++i) {
      PBT_CHECK(runs_[i] == 1, "task " << i << " ran " << runs_[i] << " times");
      PBT_CHECK(done_[i] == 1, "task " << i << " finished " << done_[i]
                                       << " times");
    }
    PBT_CHECK(!overlap_, "two tasks of one worker overlapped");
    for (int l = 1; l < p_.lanes; ++l) {
      PBT_CHECK(executed_[l] == submitted_[l],
                "worker " << l << " did not run its tasks in order");
    }
  }

 private:
  const Program& p_;
  fcp::Scheduler* sched_;
  std::vector<std::unique_ptr<fcp::Worker>> workers_;
  std::vector<std::atomic<int>> runs_, done_, busy_;
  std::vector<std::vector<int>> submitted_, executed_;
  std::vector<std::mutex> locks_;
  std::atomic<int> accepted_{0}, finished_{0};
  std::atomic<bool> overlap_{false};
};

// A single-threaded scheduler whose execution order is generated, so that
// every interleaving of worker tasks can come up and replays exactly.
class OrderedScheduler : public fcp::Scheduler {
 public:
  explicit OrderedScheduler(pbt::Src& s) : s_(s) {}
  void Schedule(std::function<void()> task) override {
    todo_.push_back(std::move(task));
  }
  void WaitUntilIdle() override {
    while (!todo_.empty()) {
      size_t i = s_.draw(todo_.size());
      auto t = std::move(todo_[i]);
      todo_.erase(todo_.begin() + i);
      t();
    }
  }

 private:
  pbt::Src& s_;
  std::deque<std::function<void()>> todo_;
};

void Ordered(pbt::Src& s, pbt::Case& c) {
  Program p = GenProgram(s, c, 24);
  c.nontrivial(p.tasks.size() >= 4 && p.lanes >= 2);
  OrderedScheduler sched(s);
  Runner r(p, &sched);
  for (int i : p.roots) {
    r.Submit(i);
    // Now and then let things run before more is submitted.
    if (s.chance(1, 4)) sched.WaitUntilIdle();
  }
  sched.WaitUntilIdle();
  r.CheckAll();
}

void Pool(pbt::Src& s, pbt::Case& c) {
  Program p = GenProgram(s, c, 60);
  int threads = s.small(1, 8);
  int producers = s.small(0, 3);
  int rounds = s.small(1, 3);
  c.log << "threads " << threads << " producers " << producers << " rounds "
        << rounds << "\n";
  c.nontrivial(p.tasks.size() >= 4 && threads >= 2);
  c.label(producers ? "external producers" : "one producer");
  auto sched = fcp::CreateThreadPoolScheduler(threads);
  for (int round = 0; round < rounds; ++round) {
    Runner r(p, sched.get());
    if (producers == 0) {
      for (size_t i = 0; i < p.roots.size(); ++i) {
        r.Submit(p.roots[i]);
        if (i % 7 == 3) {
          int before = r.accepted();
          sched->WaitUntilIdle();
          PBT_CHECK(r.finished() >= before,
                    "idle reported while accepted tasks were unfinished");
          PBT_CHECK(r.finished() == r.accepted(),
                    "idle reported with work outstanding");
        }
      }
    } else {
      std::vector<std::thread> ts;
      for (int k = 0; k < producers; ++k) {
        ts.emplace_back([&, k] {
          for (size_t i = k; i < p.roots.size(); i += producers) {
            r.Submit(p.roots[i]);
            Burn(i % 4 == 0);
          }
        });
      }
      // Waiting while others submit must cover what was accepted before.
      int before = r.accepted();
      sched->WaitUntilIdle();
      int after = r.finished();
      for (auto& t : ts) t.join();
      sched->WaitUntilIdle();
      PBT_CHECK(after >= before,
                "idle reported while accepted tasks were unfinished");
    }
    sched->WaitUntilIdle();
    int finished = r.finished();
    PBT_CHECK(finished == static_cast<int>(p.tasks.size()),
              "idle after " << finished << " of " << p.tasks.size()
                            << " tasks");
    r.CheckAll();
    r.DropWorkers();
  }
  sched.reset();
}

// As many tasks as threads can all be in progress at once, however they got
// there: each waits for the others. A lost wake-up shows up as a hang.
void Together(pbt::Src& s, pbt::Case& c) {
  int threads = s.small(2, 6);
  int rounds = s.small(1, 4);
  int mode = s.weighted({2, 1, 1});
  int filler = s.small(0, 5);
  c.log << "threads " << threads << " rounds " << rounds << " mode " << mode
        << " filler " << filler << "\n";
  c.nontrivial();
  auto sched = fcp::CreateThreadPoolScheduler(threads);
  for (int r = 0; r < rounds; ++r) {
    std::atomic<int> in{0};
    std::atomic<int> extra{0};
    auto meet = [&] {
      in++;
      while (in < threads) std::this_thread::yield();
    };
    if (mode == 0) {
      for (int i = 0; i < threads; ++i) sched->Schedule(meet);
    } else if (mode == 1) {
      sched->Schedule([&] {
        for (int i = 1; i < threads; ++i) sched->Schedule(meet);
        meet();
      });
    } else {
      std::vector<std::thread> ts;
      for (int i = 0; i < threads; ++i) {
        ts.emplace_back([&] { sched->Schedule(meet); });
      }
      for (auto& t : ts) t.join();
    }
    for (int i = 0; i < filler; ++i) sched->Schedule([&] { extra++; });
    sched->WaitUntilIdle();
    PBT_CHECK(in == threads, "idle with " << in << " of " << threads);
    PBT_CHECK(extra == filler, "idle with filler tasks outstanding");
  }
}

// Several parties wait for idleness at once; all of them return.
void Waiters(pbt::Src& s, pbt::Case& c) {
  int threads = s.small(1, 4);
  int waiters = s.small(1, 4);
  int tasks = s.small(0, 20);
  int spin = s.range(0, 3);
  bool leave_idle = s.flip();
  c.log << "threads " << threads << " waiters " << waiters << " tasks " << tasks
        << " spin " << spin << "\n";
  c.nontrivial(tasks > 0 && waiters > 1);
  auto sched = fcp::CreateThreadPoolScheduler(threads);
  if (leave_idle) sched->WaitUntilIdle();
  std::atomic<int> done{0};
  std::atomic<bool> bad{false};
  for (int i = 0; i < tasks; ++i) {
    sched->Schedule([&] {
      Burn(spin);
      done++;
    });
  }
  std::vector<std::thread> ts;
  for (int i = 0; i < waiters; ++i) {
    ts.emplace_back([&] {
      sched->WaitUntilIdle();
      if (done != tasks) bad = true;
    });
  }
  for (auto& t : ts) t.join();
  PBT_CHECK(!bad, "a waiter saw idleness before all tasks were done");
  sched->WaitUntilIdle();
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "B01",
                   "at least 4 tasks on several threads or workers, or tasks "
                   "that wait for each other, or several idle waiters",
                   {{"ordered", Ordered, 12000, 200000},
                    {"pool", Pool, 2500, 40000},
                    {"together", Together, 1200, 20000},
                    {"waiters", Waiters, 1200, 20000}},
                   /*hang_is_violation=*/true, /*jobs=*/4,
                   /*case_timeout_s=*/40);
}
