// LIBS: fcp_client pbt
// C14: interruptible work.
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <string>
#include <thread>

#include "client_fakes.h"
#include "fcp/client/interruptible_runner.h"
#include "pbt/pbt.h"

using fcp::client::InterruptibleRunner;
using fcp::client::ProdDiagCode;
using pbt::Case;
using pbt::Src;

namespace {

constexpr ProdDiagCode kIn = ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP;
constexpr ProdDiagCode kTimeout = ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_TIMED_OUT;
constexpr ProdDiagCode kInExt = ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_COMPLETED;
constexpr ProdDiagCode kTimeoutExt = ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT;

// An event that work can wait for.
class Gate {
 public:
  void Open() {
    std::lock_guard<std::mutex> l(mu_);
    open_ = true;
    cv_.notify_all();
  }
  void Wait() {
    std::unique_lock<std::mutex> l(mu_);
    cv_.wait(l, [&] { return open_; });
  }

 private:
  std::mutex mu_;
  std::condition_variable cv_;
  bool open_ = false;
};

class HookLog : public fakes::Log {
 public:
  void LogDiag(ProdDiagCode c) override {
    fakes::Log::LogDiag(c);
    order += c == kIn ? 'i' : c == kTimeout ? 't' : c == kInExt ? 'e' : c == kTimeoutExt ? 'x' : '?';
    if (hook) hook(c);
  }
  void LogDiag(fcp::client::DebugDiagCode c) override { fakes::Log::LogDiag(c); }
  std::function<void(ProdDiagCode)> hook;
  std::string order;
};

absl::Status Outcome(Src& s) {
  return s.flip() ? absl::OkStatus()
                  : absl::Status(s.of<absl::StatusCode>({absl::StatusCode::kInternal, absl::StatusCode::kInvalidArgument, absl::StatusCode::kCancelled, absl::StatusCode::kUnavailable}), "own " + s.ident(3));
}

enum Kind { kFinishes, kBefore, kGraceful, kExtended, kRace };

void Runs(Src& s, Case& c) {
  HookLog log;
  std::atomic<bool> abort{false};
  std::atomic<int> polls{0};
  // Either long grace (graceful kinds) or short grace (extended kinds).
  bool short_grace = s.chance(1, 3);
  auto timing = InterruptibleRunner::TimingConfig{
      absl::Microseconds(s.of<int>({100, 1000, 3000})),
      short_grace ? absl::Milliseconds(s.urange(1, 4)) : absl::Minutes(30),
      absl::Minutes(30)};
  std::atomic<int> running{0};
  int n = s.urange(1, 4);
  int aborted = 0;
  {
    InterruptibleRunner runner(&log, [&] { polls++; return abort.load(); }, timing, {kIn, kTimeout, kInExt, kTimeoutExt});
    for (int i = 0; i < n; ++i) {
      Kind k = Kind(s.weighted({4, 1, short_grace ? 0u : 3u, short_grace ? 3u : 0u, 1}));
      absl::Status own = Outcome(s);
      int spin_us = s.weighted({2, 1}) ? s.draw(4000) : 0;
      int cleanup_us = s.weighted({2, 1}) ? s.draw(2000) : 0;
      bool linger = k == kExtended && s.chance(1, 3);
      c.log << " " << "fbgxr"[k] << (own.ok() ? "" : "!") << (spin_us ? "~" : "");
      abort = k == kBefore;
      log.order.clear();
      std::atomic<int> started{0}, ended{0}, aborts{0};
      std::atomic<bool> ended_at_abort{false};
      auto cancel = std::make_shared<Gate>();
      auto late = std::make_shared<Gate>();
      log.hook = [&](ProdDiagCode d) {
        if (d == kTimeout && k == kExtended) late->Open();
      };
      absl::Status got = runner.Run(
          [&, own]() -> absl::Status {
            started++;
            running++;
            if (spin_us) std::this_thread::sleep_for(std::chrono::microseconds(spin_us));
            switch (k) {
              case kGraceful:
                abort = true;
                cancel->Wait();
                break;
              case kExtended:
                abort = true;
                cancel->Wait();
                late->Wait();
                // Longer than the grace period, far below the extended one.
                if (linger) std::this_thread::sleep_for(std::chrono::milliseconds(20));
                break;
              case kRace:
                abort = true;
                break;
              default: break;
            }
            if (cleanup_us) std::this_thread::sleep_for(std::chrono::microseconds(cleanup_us));
            running--;
            ended++;
            return own;
          },
          [&] {
            aborts++;
            ended_at_abort = ended > 0;
            cancel->Open();
          });
      PBT_EQ(running.load(), 0, "returned while the work was running");
      PBT_CHECK(aborts <= 1, "abort action invoked more than once");
      aborted += aborts;
      switch (k) {
        case kFinishes:
          PBT_CHECK(got == own, "own result expected, got " + got.ToString());
          PBT_EQ(aborts.load(), 0, "aborted without an abort signal");
          PBT_EQ(started.load(), 1, "runs of the work");
          PBT_EQ(log.order, std::string(), "diagnostics without an abort");
          break;
        case kBefore:
          PBT_CHECK(got.code() == absl::StatusCode::kCancelled, "cancelled expected, got " + got.ToString());
          PBT_EQ(started.load(), 0, "work was started although aborted before");
          PBT_EQ(aborts.load(), 0, "abort action of work that never started");
          break;
        case kGraceful:
          PBT_CHECK(got.code() == absl::StatusCode::kCancelled, "cancelled expected, got " + got.ToString());
          PBT_EQ(aborts.load(), 1, "abort action");
          PBT_EQ(ended.load(), 1, "work ended");
          PBT_EQ(log.order, std::string("i"), "diagnostics of a graceful abort");
          break;
        case kExtended:
          PBT_CHECK(got.code() == absl::StatusCode::kCancelled, "cancelled expected, got " + got.ToString());
          PBT_EQ(aborts.load(), 1, "abort action");
          PBT_EQ(ended.load(), 1, "work ended");
          PBT_EQ(log.order, std::string("te"), "diagnostics of an extended abort");
          break;
        case kRace:
          PBT_EQ(ended.load(), 1, "work ended");
          if (aborts) {
            PBT_CHECK(got.code() == absl::StatusCode::kCancelled, "cancelled expected, got " + got.ToString());
          } else {
            PBT_CHECK(got == own, "own result expected, got " + got.ToString());
          }
      }
      log.hook = nullptr;
    }
  }
  c.nontrivial(aborted > 0 || n > 1);
  if (aborted) c.label("aborted");
  if (short_grace) c.label("short grace");
}

// Work that ignores the abort: the process ends after both periods.
void Stuck(Src& s, Case& c) {
  bool recovers = s.chance(1, 4);  // at the very last moment it may finish
  int grace = s.draw(6), ext = s.draw(12);
  int poll_us = s.of<int>({100, 1000, 5000});
  c.log << "grace " << grace << "ms extended " << ext << "ms" << (recovers ? " recovers" : "");
  int p[2];
  PBT_CHECK(pipe(p) == 0, "pipe");
  pid_t pid = fork();
  PBT_CHECK(pid >= 0, "fork");
  if (pid == 0) {
    close(p[0]);
    static int fd;
    fd = p[1];
    auto say = [](char ch) { (void)!write(fd, &ch, 1); };
    // Never destroyed: a thread still waits on them when the process ends.
    static HookLog& log = *new HookLog;
    static Gate& never = *new Gate;
    static Gate& late = *new Gate;
    log.hook = [say, recovers](ProdDiagCode d) {
      say(d == kIn ? 'i' : d == kTimeout ? 't' : d == kInExt ? 'e' : 'x');
      if (d == kTimeout && recovers) late.Open();
    };
    static std::atomic<bool> abort{false};
    {
      auto& runner = *new InterruptibleRunner(&log, [] { return abort.load(); },
                                 {absl::Microseconds(poll_us), absl::Milliseconds(grace), recovers ? absl::Minutes(30) : absl::Milliseconds(ext)},
                                 {kIn, kTimeout, kInExt, kTimeoutExt});
      absl::Status st = runner.Run(
          [recovers] {
            abort = true;
            if (recovers) late.Wait(); else never.Wait();
            return absl::OkStatus();
          },
          [say] { say('A'); });
      say(st.code() == absl::StatusCode::kCancelled ? 'C' : 'O');
      delete &runner;
    }
    say('D');
    _exit(7);
  }
  close(p[1]);
  std::string got;
  char ch;
  while (read(p[0], &ch, 1) == 1) got += ch;
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  c.nontrivial(true);
  if (recovers) {
    c.label("recovers");
    PBT_EQ(got, std::string("AteCD"), "events");
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 7, "ended although the work finished");
  } else {
    c.label("ends");
    PBT_EQ(got, std::string("Atx"), "events before the end");
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "status of the ended process: " + std::to_string(st));
  }
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C14",
                   "an aborted run or several runs on one runner; a run whose work ignores the abort",
                   {{"runs", Runs, 6000, 60000}, {"stuck", Stuck, 500, 4000}},
                   /*hang_is_violation=*/true, /*jobs=*/8, /*case_timeout_s=*/15);
}
