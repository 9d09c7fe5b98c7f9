// An interruptible runner with its own abort flag, and a clock that only
// records how long it was asked to sleep.
#ifndef VERIF_RUNNER_BOX_H_
#define VERIF_RUNNER_BOX_H_

#include <atomic>
#include <functional>
#include <vector>

#include "absl/time/time.h"
#include "client_fakes.h"
#include "fcp/base/clock.h"
#include "fcp/client/interruptible_runner.h"

namespace fakes {

inline fcp::client::InterruptibleRunner::DiagnosticsConfig HttpDiag() {
  using fcp::client::ProdDiagCode;
  return {
      ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP,
      ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_TIMED_OUT,
      ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_COMPLETED,
      ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT};
}

inline fcp::client::InterruptibleRunner::TimingConfig PatientTiming() {
  return {absl::Milliseconds(2), absl::Minutes(10), absl::Minutes(20)};
}

struct Run {
  Log log;
  std::atomic<bool> abort{false};
  fcp::client::InterruptibleRunner runner{
      &log, [this] { return abort.load(); }, PatientTiming(), HttpDiag()};
};

class StepClock : public fcp::Clock {
 public:
  explicit StepClock(absl::Time t) : now(t) {}
  absl::Time Now() override { return now; }
  void Sleep(absl::Duration d) override {
    sleeps.push_back(d);
    now += d;
    if (on_sleep) on_sleep();
  }
  absl::Time now;
  std::vector<absl::Duration> sleeps;
  std::function<void()> on_sleep;

 protected:
  absl::Time NowLocked() override { return now; }
  void ScheduleWakeup(absl::Time) override {}
};

}  // namespace fakes
#endif  // VERIF_RUNNER_BOX_H_
