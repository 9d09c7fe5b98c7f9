// LIBS: fcp_base
// B03: values handed over through futures arrive once, from any thread.
#include <atomic>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>

#include "absl/time/clock.h"
#include "fcp/base/future.h"
#include "fcp/base/move_to_lambda.h"
#include "fcp/base/scheduler.h"
#include "fcp/base/unique_value.h"
#include "pbt/pbt.h"

namespace {

using fcp::UniqueValue;
using fcp::thread::Future;
using fcp::thread::FuturePair;
using fcp::thread::MakeFuture;
using fcp::thread::Promise;

// Counts its live instances, so that lost and duplicated values show up.
struct Token {
  static std::atomic<int> live;
  int id;
  std::string body;
  explicit Token(int id) : id(id), body("payload " + std::to_string(id)) {
    live++;
  }
  Token(Token&& o) : id(o.id), body(std::move(o.body)) {
    o.id = -1;
    live++;
  }
  Token& operator=(Token&& o) {
    id = o.id;
    body = std::move(o.body);
    o.id = -1;
    return *this;
  }
  ~Token() { live--; }
};
std::atomic<int> Token::live{0};

// Single-threaded sequences over a set of pairs, compared with a model.
void Sequence(pbt::Src& s, pbt::Case& c) {
  enum { kOpen, kSet, kAbandoned };
  struct Slot {
    std::optional<Promise<Token>> p;
    std::optional<Future<Token>> f;
    int state = kOpen;
    int value = -1;
    bool taken = false;
  };
  {
    std::vector<std::unique_ptr<Slot>> v;
    int next = 0, moved = 0, overwritten = 0;
    int ops = s.small(1, 30);
    // A future is ready exactly when its promise was set or dropped.
    auto check = [&] {
      for (size_t i = 0; i < v.size(); ++i) {
        if (!v[i]->f) continue;
        bool ready = v[i]->f->Wait(absl::ZeroDuration());
        PBT_CHECK(ready == (v[i]->state != kOpen),
                  "future " << i << " readiness " << ready << " in state "
                            << v[i]->state);
      }
    };
    for (int k = 0; k < ops; ++k) {
      int i = v.empty() ? -1 : static_cast<int>(s.draw(v.size()));
      switch (s.weighted({4, 3, 2, 3, 1, 2, 2})) {
        case 0: {
          auto slot = std::make_unique<Slot>();
          FuturePair<Token> pair = MakeFuture<Token>();
          slot->p.emplace(std::move(pair.promise));
          slot->f.emplace(std::move(pair.future));
          v.push_back(std::move(slot));
          c.log << "make " << v.size() - 1 << "\n";
          break;
        }
        case 1:
          if (i < 0 || !v[i]->p || v[i]->state != kOpen) break;
          c.log << "set " << i << "\n";
          v[i]->value = next;
          v[i]->state = kSet;
          std::move(*v[i]->p).Set(Token(next++));
          if (s.flip()) v[i]->p.reset();
          break;
        case 2:
          if (i < 0 || !v[i]->p) break;
          c.log << "drop promise " << i << "\n";
          v[i]->p.reset();
          if (v[i]->state == kOpen) v[i]->state = kAbandoned;
          break;
        case 3: {
          if (i < 0 || !v[i]->f || v[i]->state == kOpen) break;
          c.log << "take " << i << "\n";
          std::optional<Token> t = std::move(*v[i]->f).Take();
          v[i]->f.reset();
          v[i]->taken = true;
          if (v[i]->state == kSet) {
            PBT_CHECK(t.has_value(), "a set value was lost");
            PBT_EQ(t->id, v[i]->value, "value handed over");
            PBT_EQ(t->body, "payload " + std::to_string(v[i]->value), "body");
          } else {
            PBT_CHECK(!t.has_value(), "an abandoned promise gave a value");
          }
          break;
        }
        case 4:
          if (i < 0 || !v[i]->f) break;
          c.log << "drop future " << i << "\n";
          v[i]->f.reset();
          break;
        case 5: {  // move through a temporary
          if (i < 0) break;
          moved++;
          c.log << "move " << i << "\n";
          if (v[i]->p) {
            Promise<Token> tmp = std::move(*v[i]->p);
            Promise<Token> tmp2(std::move(tmp));
            v[i]->p.emplace(std::move(tmp2));
          }
          if (v[i]->f) {
            Future<Token> tmp = std::move(*v[i]->f);
            v[i]->f.emplace(std::move(tmp));
          }
          break;
        }
        default: {  // overwrite one promise or future by another
          if (i < 0) break;
          size_t j = s.draw(v.size());
          if (j == static_cast<size_t>(i)) break;
          if (s.flip()) {
            if (!v[i]->p || !v[j]->p) break;
            c.log << "promise " << i << " = promise " << j << "\n";
            overwritten++;
            *v[i]->p = std::move(*v[j]->p);
            // Slot i's old promise is gone; its future belongs to nobody.
            if (v[i]->state == kOpen) v[i]->state = kAbandoned;
            // Hand the promise back to the slot of its future.
            v[j]->p.emplace(std::move(*v[i]->p));
            v[i]->p.reset();
          } else {
            if (!v[i]->f || !v[j]->f) break;
            c.log << "future " << i << " = future " << j << "\n";
            *v[i]->f = std::move(*v[j]->f);
            v[j]->f.emplace(std::move(*v[i]->f));
            v[i]->f.reset();
          }
        }
      }
      check();
      int held = 0;
      for (auto& x : v) held += x->state == kSet && !x->taken && x->f;
      PBT_CHECK(Token::live >= held, "values were destroyed early");
    }
    c.nontrivial(v.size() >= 2 && next > 0 && moved + overwritten > 0);
  }
  PBT_EQ(Token::live.load(), 0, "values leaked or destroyed twice");
}

// One producer and one consumer per pair, on their own threads.
void Threads(pbt::Src& s, pbt::Case& c) {
  struct Plan {
    bool set;
    int delay_p, delay_f, waits;
    int64_t wait_us;
  };
  int n = s.small(1, 8);
  std::vector<Plan> plan(n);
  for (auto& p : plan) {
    p.set = s.chance(3, 4);
    p.delay_p = s.range(0, 3);
    p.delay_f = s.range(0, 3);
    p.waits = s.small(0, 3);
    p.wait_us = s.of<int64_t>({0, 1, 50, -5, 1000});
    c.log << (p.set ? "set" : "drop") << " after " << p.delay_p
          << ", take after " << p.delay_f << " with " << p.waits << " waits of "
          << p.wait_us << "us\n";
  }
  c.nontrivial(n >= 2);
  auto pause = [](int k) {
    if (k == 1) std::this_thread::yield();
    if (k >= 2) absl::SleepFor(absl::Microseconds(20 * k));
  };
  std::vector<std::thread> ts;
  std::vector<std::string> errors(n);
  std::vector<std::atomic<bool>> about_to(n);
  for (int i = 0; i < n; ++i) {
    about_to[i] = false;
    auto pair = MakeFuture<Token>();
    ts.emplace_back([&, i, p = std::move(pair.promise)]() mutable {
      pause(plan[i].delay_p);
      about_to[i] = true;
      if (plan[i].set) {
        std::move(p).Set(Token(i));
      } else {
        Promise<Token> gone = std::move(p);
      }
    });
    ts.emplace_back([&, i, f = std::move(pair.future)]() mutable {
      pause(plan[i].delay_f);
      bool ready = false;
      for (int k = 0; k < plan[i].waits; ++k) {
        bool r = f.Wait(absl::Microseconds(plan[i].wait_us));
        if (r && !about_to[i]) errors[i] = "ready before it was set";
        if (ready && !r) errors[i] = "no longer ready";
        ready = r;
      }
      std::optional<Token> t = std::move(f).Take();
      if (t.has_value() != plan[i].set) {
        errors[i] = "presence of the value is wrong";
      } else if (t && (t->id != i || t->body != "payload " + std::to_string(i))) {
        errors[i] = "wrong value";
      }
    });
  }
  for (auto& t : ts) t.join();
  for (int i = 0; i < n; ++i) {
    PBT_CHECK(errors[i].empty(), "pair " << i << ": " << errors[i]);
  }
  PBT_EQ(Token::live.load(), 0, "values leaked or destroyed twice");
}

// Functions scheduled on a pool deliver their results through futures.
void Scheduled(pbt::Src& s, pbt::Case& c) {
  int threads = s.small(1, 4);
  int n = s.small(1, 25);
  auto pool = fcp::CreateThreadPoolScheduler(threads);
  std::vector<int> order(n);
  std::vector<std::atomic<int>> runs(n);
  std::vector<Future<std::string>> fs;
  c.log << "threads " << threads << " functions " << n << "\n";
  for (int i = 0; i < n; ++i) {
    order[i] = i;
    runs[i] = 0;
    fs.push_back(fcp::thread::ScheduleFuture<std::string>(
        pool.get(), [&runs, i]() -> std::string {
          runs[i]++;
          if (i % 3 == 1) std::this_thread::yield();
          return "r" + std::to_string(i * i);
        }));
  }
  s.shuffle(&order);
  c.nontrivial(n >= 3 && threads >= 2);
  for (int i : order) {
    if (s.chance(1, 5)) {
      Future<std::string> dropped = std::move(fs[i]);
      continue;
    }
    if (s.flip()) {
      bool r = fs[i].Wait(absl::InfiniteDuration());
      PBT_CHECK(r, "an endless wait gave up");
    }
    auto v = std::move(fs[i]).Take();
    PBT_CHECK(v.has_value(), "no value");
    PBT_EQ(*v, "r" + std::to_string(i * i), "value");
  }
  pool->WaitUntilIdle();
  for (int i = 0; i < n; ++i) PBT_EQ(runs[i].load(), 1, "runs of " << i);
}

// Move-only values and destructive captures.
void Values(pbt::Src& s, pbt::Case& c) {
  {
    std::vector<UniqueValue<Token>> v;
    std::vector<int> model;  // -1: empty
    int next = 0, ops = s.small(1, 30), moves = 0;
    for (int k = 0; k < ops; ++k) {
      int i = v.empty() ? -1 : static_cast<int>(s.draw(v.size()));
      switch (s.weighted({3, 1, 3, 3, 2, 2, 1, 2})) {
        case 0:
          v.push_back(fcp::MakeUniqueValue<Token>(next));
          model.push_back(next++);
          break;
        case 1:
          v.push_back(UniqueValue<Token>(std::nullopt));
          model.push_back(-1);
          break;
        case 2: {
          if (i < 0) break;
          UniqueValue<Token> t(std::move(v[i]));
          PBT_CHECK(!v[i].has_value(), "moved-from value still present");
          v.push_back(std::move(t));
          model.push_back(model[i]);
          model[i] = -1;
          moves++;
          break;
        }
        case 3: {
          if (i < 0) break;
          size_t j = s.draw(v.size());
          if (j == static_cast<size_t>(i)) break;
          v[i] = std::move(v[j]);
          model[i] = model[j];
          model[j] = -1;
          moves++;
          break;
        }
        case 4: {
          if (i < 0 || model[i] < 0) break;
          Token t = std::move(v[i]).Take();
          PBT_EQ(t.id, model[i], "taken value");
          model[i] = -1;
          break;
        }
        case 5: {
          if (i < 0) break;
          Token& t = v[i].Emplace(next);
          PBT_EQ(t.id, next, "emplaced value");
          model[i] = next++;
          break;
        }
        case 6:
          if (i < 0) break;
          v[i].Reset();
          model[i] = -1;
          break;
        default: {
          if (i < 0 || model[i] < 0) break;
          auto w = fcp::MoveToLambda(std::move(v[i]));
          auto f = [w]() mutable -> UniqueValue<Token>& { return *w; };
          auto g = f;  // the copy carries the value on
          PBT_CHECK(g().has_value() && (*g()).id == model[i],
                    "captured value lost");
          v[i] = std::move(g());
          moves++;
        }
      }
      int present = 0;
      for (size_t x = 0; x < v.size(); ++x) {
        PBT_EQ(v[x].has_value(), model[x] >= 0, "presence of " << x);
        if (model[x] >= 0) {
          present++;
          PBT_EQ((*v[x]).id, model[x], "value of " << x);
          PBT_EQ(v[x]->body, "payload " + std::to_string(model[x]), "body");
        }
      }
      PBT_EQ(Token::live.load(), present, "live values");
    }
    c.nontrivial(moves >= 2);
  }
  PBT_EQ(Token::live.load(), 0, "values leaked or destroyed twice");
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "B03",
                   "two or more pairs with moves or overwrites, two or more "
                   "thread pairs, three or more pool functions, or two moves",
                   {{"sequence", Sequence, 60000, 300000},
                    {"threads", Threads, 6000, 40000},
                    {"scheduled", Scheduled, 2500, 40000},
                    {"values", Values, 40000, 300000}},
                   /*hang_is_violation=*/true, /*jobs=*/8,
                   /*case_timeout_s=*/40);
}
