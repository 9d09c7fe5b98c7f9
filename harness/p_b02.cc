// LIBS: fcp_base
// B02: clock wake-ups fire once, in deadline order and never early; a
// stopwatch accumulates the time during which anybody runs it.
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

#include "absl/time/clock.h"
#include "fcp/base/clock.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/base/wall_clock_stopwatch.h"
#include "pbt/pbt.h"

// Time seen by the process while the stopwatch part runs; otherwise real time.
static std::atomic<bool> g_fake{false};
static std::atomic<int64_t> g_fake_ns{0};
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  if (g_fake && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC)) {
    int64_t ns = g_fake_ns;
    ts->tv_sec = ns / 1000000000;
    ts->tv_nsec = ns % 1000000000;
    return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}

namespace absl {
ABSL_NAMESPACE_BEGIN
int64_t GetCurrentTimeNanos() {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return ts.tv_sec * int64_t{1000000000} + ts.tv_nsec;
}
Time Now() { return FromUnixNanos(GetCurrentTimeNanos()); }
ABSL_NAMESPACE_END
}  // namespace absl

namespace {

using fcp::Clock;
using fcp::SimulatedClock;

struct World;

struct Waiter : Clock::Waiter {
  World* w;
  int id;
  absl::Time deadline;
  int group;  // waiters registered in one go, with no dispatch in between
  std::function<void()> action;
  int woken = 0;
  void WakeUp() override;
};

struct World {
  pbt::Src& s;
  pbt::Case& c;
  SimulatedClock clock;
  std::vector<std::shared_ptr<Waiter>> all;
  std::vector<int> woken;   // in order
  size_t op_first = 0;      // waiters below this existed before this call
  size_t op_woken = 0;
  int group = 0;
  int depth = 0;
  int budget = 25;
  World(pbt::Src& s, pbt::Case& c, absl::Time t) : s(s), c(c), clock(t) {}

  absl::Duration Dur() {
    switch (s.weighted({5, 2, 1, 1})) {
      case 0:
        return absl::Seconds(s.range(0, 6));
      case 1:
        return absl::Nanoseconds(s.range(0, 3));
      case 2:
        return absl::Milliseconds(s.range(0, 2000));
      default:
        return absl::Hours(s.range(0, 100000));
    }
  }

  void Register(bool nested) {
    if (budget-- <= 0) return;
    auto w = std::make_shared<Waiter>();
    w->w = this;
    w->id = all.size();
    bool past = s.chance(1, 5);
    w->deadline = past ? clock.Now() - Dur() : clock.Now() + Dur();
    if (s.chance(1, 30)) w->deadline = absl::InfiniteFuture();
    if (s.chance(1, 30)) w->deadline = absl::InfinitePast();
    w->group = group;
    all.push_back(w);
    c.log << (nested ? "  nested" : "") << " register " << w->id << " at "
          << absl::FormatDuration(w->deadline - absl::UnixEpoch()) << "\n";
    if (nested) c.label("registered from a wake-up");
    clock.WakeupWithDeadline(w->deadline, w);
    if (nested) {
      PBT_CHECK(w->woken == 0 || w->woken == 1, "woken twice");
    }
  }

  void OnWake(Waiter* w) {
    ++depth;
    c.log << "  wake " << w->id << "\n";
    PBT_CHECK(w->woken == 0, "waiter " << w->id << " woken again");
    w->woken++;
    PBT_CHECK(clock.Now() >= w->deadline,
              "waiter " << w->id << " woken before its deadline");
    woken.push_back(w->id);
    ++group;
    // What a wake-up does in turn.
    int n = s.weighted({5, 2, 1});
    for (int i = 0; i < n; ++i) {
      if (s.chance(1, 4)) {
        absl::Duration d = Dur();
        c.log << "  nested advance " << absl::FormatDuration(d) << "\n";
        c.label("advanced from a wake-up");
        absl::Time before = clock.Now();
        clock.AdvanceTime(d);
        PBT_CHECK(clock.Now() == before + d, "time after a nested advance");
      } else {
        Register(true);
      }
    }
    ++group;
    --depth;
  }

  void Begin() {
    op_first = all.size();
    op_woken = woken.size();
    ++group;
  }

  void End() {
    absl::Time now = clock.Now();
    for (auto& w : all) {
      if (w->deadline <= now) {
        PBT_CHECK(w->woken == 1, "waiter " << w->id << " due but woken "
                                           << w->woken << " times");
      }
    }
    // Order among waiters known before the call, and among those registered
    // together.
    for (size_t i = op_woken; i < woken.size(); ++i) {
      for (size_t j = i + 1; j < woken.size(); ++j) {
        Waiter &a = *all[woken[i]], &b = *all[woken[j]];
        bool comparable = (static_cast<size_t>(a.id) < op_first &&
                           static_cast<size_t>(b.id) < op_first) ||
                          (a.group == b.group);
        if (!comparable) continue;
        PBT_CHECK(a.deadline < b.deadline ||
                      (a.deadline == b.deadline && a.id < b.id),
                  "waiter " << a.id << " was woken before " << b.id);
      }
    }
  }
};

void Waiter::WakeUp() { w->OnWake(this); }

void Simulated(pbt::Src& s, pbt::Case& c) {
  absl::Time start = s.chance(1, 4) ? absl::FromUnixSeconds(s.range(0, 1 << 30))
                                    : absl::UnixEpoch();
  World w(s, c, start);
  PBT_CHECK(w.clock.Now() == start, "initial time");
  int ops = s.small(1, 25);
  for (int i = 0; i < ops; ++i) {
    w.Begin();
    switch (s.weighted({6, 4, 2, 1})) {
      case 0:
        w.Register(false);
        break;
      case 1: {
        absl::Duration d = w.Dur();
        c.log << " advance " << absl::FormatDuration(d) << "\n";
        absl::Time before = w.clock.Now();
        w.clock.AdvanceTime(d);
        PBT_CHECK(w.clock.Now() >= before + d, "time went backwards");
        break;
      }
      case 2: {
        absl::Time t = w.clock.Now() + w.Dur();
        c.log << " set +" << absl::FormatDuration(t - w.clock.Now()) << "\n";
        w.clock.SetTime(t);
        PBT_CHECK(w.clock.Now() >= t, "time not set");
        break;
      }
      default: {
        c.log << " sleep 0\n";
        w.clock.Sleep(absl::ZeroDuration());
      }
    }
    w.End();
  }
  int pending = 0;
  for (auto& p : w.all) pending += p->woken == 0;
  c.nontrivial(w.woken.size() >= 3);
  w.Begin();
  w.clock.SetTime(absl::InfiniteFuture());
  w.End();
  w.clock.SetTime(absl::UnixEpoch());
  for (auto& p : w.all) {
    PBT_CHECK(p->woken == 1, "waiter " << p->id << " woken " << p->woken);
    PBT_CHECK(p.use_count() == 1, "the clock still holds waiter " << p->id);
  }
}

struct CountingWaiter : Clock::Waiter {
  std::atomic<int> woken{0};
  std::atomic<bool> early{false};
  Clock* clock;
  absl::Time deadline;
  std::function<void()> action;
  void WakeUp() override {
    if (clock->Now() < deadline) early = true;
    woken++;
    if (action) action();
  }
};

// Several threads register waiters and advance time concurrently.
void Threads(pbt::Src& s, pbt::Case& c) {
  int nt = s.small(2, 5);
  int per = s.small(1, 12);
  int64_t seed = s.draw(1 << 20);
  c.log << "threads " << nt << " each " << per << " seed " << seed << "\n";
  c.nontrivial(per >= 2);
  SimulatedClock clock;
  std::vector<std::vector<std::shared_ptr<CountingWaiter>>> ws(nt);
  std::vector<std::thread> ts;
  std::atomic<int> go{0};
  std::atomic<int64_t> advanced{0};
  std::atomic<bool> backwards{false};
  for (int t = 0; t < nt; ++t) {
    ts.emplace_back([&, t] {
      uint64_t x = seed * 31 + t;
      auto rnd = [&](int n) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        return static_cast<int>((x >> 33) % n);
      };
      go++;
      while (go < nt) {
      }
      absl::Time last = clock.Now();
      for (int i = 0; i < per; ++i) {
        if (rnd(3) == 0) {
          int d = rnd(5);
          advanced += d;
          clock.AdvanceTime(absl::Seconds(d));
        } else {
          auto w = std::make_shared<CountingWaiter>();
          w->clock = &clock;
          w->deadline = clock.Now() + absl::Seconds(rnd(6));
          ws[t].push_back(w);
          clock.WakeupWithDeadline(w->deadline, w);
        }
        absl::Time now = clock.Now();
        if (now < last) backwards = true;
        last = now;
      }
    });
  }
  for (auto& t : ts) t.join();
  PBT_CHECK(!backwards, "the clock moved backwards");
  PBT_CHECK(clock.Now() == absl::UnixEpoch() + absl::Seconds(advanced.load()),
            "concurrent advances were lost");
  for (int round = 0; round < 2; ++round) {
    for (auto& v : ws) {
      for (auto& w : v) {
        if (w->deadline <= clock.Now()) {
          PBT_CHECK(w->woken == 1, "due waiter woken " << w->woken << " times");
        } else {
          PBT_CHECK(w->woken == 0, "waiter woken early");
        }
        PBT_CHECK(!w->early, "woken before its deadline");
      }
    }
    clock.AdvanceTime(absl::Seconds(10));
  }
}

// The real clock, with deadlines registered in any order: nothing is woken
// early, and nothing that is due stays asleep.
void Real(pbt::Src& s, pbt::Case& c) {
  Clock* clock = Clock::RealClock();
  int n = s.small(1, 6);
  std::vector<std::shared_ptr<CountingWaiter>> ws;
  auto add = [&](int64_t us) {
    auto w = std::make_shared<CountingWaiter>();
    w->clock = clock;
    w->deadline = clock->Now() + absl::Microseconds(us);
    ws.push_back(w);
    return w;
  };
  int far = 0;
  for (int i = 0; i < n; ++i) {
    int k = s.weighted({4, 2, 1, 1});
    int64_t us = k == 0   ? s.range(0, 8000)
                 : k == 1 ? -s.range(0, 5000)
                 : k == 2 ? s.range(0, 3) * 1000
                          : 3600000000ll;
    far += k == 3;
    c.log << "register in " << us << "us\n";
    auto w = add(us);
    if (s.chance(1, 4)) {
      int64_t us2 = s.range(-1000, 5000);
      auto w2 = add(us2);
      c.log << "  which registers one in " << us2 << "us\n";
      w->action = [clock, w2] { clock->WakeupWithDeadline(w2->deadline, w2); };
      if (k == 3) w2->deadline = w->deadline;
      far += k == 3;
    }
    clock->WakeupWithDeadline(w->deadline, w);
    if (s.chance(1, 4)) clock->Sleep(absl::Microseconds(s.range(0, 4000)));
  }
  c.nontrivial(n >= 2);
  c.label(far ? "with a far deadline" : "near deadlines");
  absl::Time cut = clock->Now() + absl::Minutes(10);
  for (auto& w : ws) {
    if (w->deadline > cut) continue;
    // A waiter that is never woken makes the case hang.
    while (w->woken == 0) absl::SleepFor(absl::Microseconds(200));
  }
  for (auto& w : ws) {
    PBT_CHECK(!w->early, "woken before its deadline");
    PBT_CHECK(w->woken == (w->deadline <= cut ? 1 : 0), "woken wrongly");
  }
  for (auto& w : ws) w->action = nullptr;
}

// Threads take turns, so the order of starts and stops is the generated one.
class Turns {
 public:
  explicit Turns(int n) : slot_(n) {
    for (int i = 0; i < n; ++i) {
      ts_.emplace_back([this, i] { Loop(i); });
    }
  }
  ~Turns() {
    for (size_t i = 0; i < slot_.size(); ++i) {
      Do(i, [this] { stop_ = true; });
      ts_[i].join();
      stop_ = false;
    }
  }
  void Do(int i, std::function<void()> f) {
    std::unique_lock<std::mutex> lock(mu_);
    slot_[i] = std::move(f);
    cv_.notify_all();
    cv_.wait(lock, [&] { return !slot_[i]; });
  }

 private:
  void Loop(int i) {
    std::unique_lock<std::mutex> lock(mu_);
    for (;;) {
      cv_.wait(lock, [&] { return static_cast<bool>(slot_[i]); });
      slot_[i]();
      bool stop = stop_;
      slot_[i] = nullptr;
      cv_.notify_all();
      if (stop) return;
    }
  }
  std::mutex mu_;
  std::condition_variable cv_;
  std::vector<std::function<void()>> slot_;
  std::vector<std::thread> ts_;
  bool stop_ = false;
};

// One waiter registered several times is woken once for each time.
void Again(pbt::Src& s, pbt::Case& c) {
  struct Counter : Clock::Waiter {
    std::atomic<int> woken{0};
    void WakeUp() override { ++woken; }
  };
  absl::Time start = absl::UnixEpoch() + absl::Seconds(s.range(0, 1000));
  SimulatedClock clock(start);
  std::vector<std::shared_ptr<Counter>> ws;
  std::vector<std::vector<absl::Time>> due;
  int n = s.range(1, 3);
  for (int i = 0; i < n; ++i) {
    ws.push_back(std::make_shared<Counter>());
    due.emplace_back();
  }
  int steps = s.range(1, 12), most = 0;
  for (int i = 0; i < steps; ++i) {
    if (s.chance(1, 4)) {
      absl::Duration d = absl::Seconds(s.range(0, 3));
      c.log << "advance " << d << "\n";
      clock.AdvanceTime(d);
    } else {
      int k = s.draw(n);
      absl::Time t = clock.Now() + absl::Seconds(s.range(-1, 3));
      c.log << "waiter " << k << " at " << t - start << "\n";
      due[k].push_back(t);
      clock.WakeupWithDeadline(t, ws[k]);
    }
    for (int k = 0; k < n; ++k) {
      int want = std::count_if(due[k].begin(), due[k].end(), [&](absl::Time t) { return t <= clock.Now(); });
      most = std::max<int>(most, due[k].size());
      PBT_EQ(ws[k]->woken.load(), want, "wake-ups of waiter " << k);
    }
  }
  c.nontrivial(most > 1);
}

void Stopwatch(pbt::Src& s, pbt::Case& c) {
  int nt = s.small(1, 4);
  Turns turns(nt);
  auto sw = s.chance(1, 10) ? fcp::WallClockStopwatch::CreateNoop()
                            : fcp::WallClockStopwatch::Create();
  auto probe = [&] { return absl::ToInt64Nanoseconds(sw->GetTotalDuration()); };
  g_fake_ns = 1600000000ll * 1000000000ll + s.range(0, 1000000000);
  g_fake = true;
  struct Off {
    ~Off() { g_fake = false; }
  } off;
  using Handle = fcp::WallClockStopwatch::Handle;
  std::vector<std::unique_ptr<Handle>> h(nt);
  std::vector<bool> on(nt, false);
  // A stopwatch that never runs is told apart by the first run.
  bool noop = false;
  {
    turns.Do(0, [&] { h[0].reset(new Handle(sw->Start())); });
    g_fake_ns += 1000;
    turns.Do(0, [&] { h[0].reset(); });
    noop = probe() == 0;
    if (!noop) PBT_EQ(probe(), int64_t{1000}, "first interval");
  }
  int64_t total = noop ? 0 : 1000;
  int running = 0, overlaps = 0;
  int ops = s.small(1, 20);
  for (int i = 0; i < ops; ++i) {
    int t = s.range(0, nt - 1);
    int64_t d = s.of<int64_t>({1, 1000000, 5, 999999999, 60000000000ll});
    if (s.flip()) {
      g_fake_ns += d;
      if (running > 0 && !noop) total += d;
      c.log << "pass " << d << "\n";
    } else if (on[t]) {
      c.log << "stop " << t << "\n";
      turns.Do(t, [&] { h[t].reset(); });
      on[t] = false;
      running--;
    } else {
      c.log << "start " << t << "\n";
      turns.Do(t, [&] { h[t].reset(new Handle(sw->Start())); });
      on[t] = true;
      running++;
      overlaps += running > 1;
    }
    PBT_EQ(probe(), total, "accumulated time after step " << i);
  }
  c.nontrivial(!noop && overlaps > 0);
  for (int t = 0; t < nt; ++t) turns.Do(t, [&] { h[t].reset(); });
  g_fake_ns += 12345;
  PBT_EQ(probe(), total, "accumulated time at the end");
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "B02",
      "three or more wake-ups, several threads with two or more steps, two or "
      "more real deadlines, or overlapping stopwatch users",
      {{"simulated", Simulated, 60000, 400000},
       {"threads", Threads, 8000, 60000},
       {"again", Again, 4000, 60000},
       {"real", Real, 400, 4000},
       {"stopwatch", Stopwatch, 1500, 20000}},
      /*hang_is_violation=*/true, /*jobs=*/8, /*case_timeout_s=*/40);
}
